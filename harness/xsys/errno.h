#pragma once
extern int errno;
#define EINVAL 22
#define ENOMEM 12
