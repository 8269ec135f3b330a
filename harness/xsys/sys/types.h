#pragma once
typedef long off_t;
