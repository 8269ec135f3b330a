import random,sys
R=random.Random(int(sys.argv[1])); N=int(sys.argv[2])
T=['uint8_t','uint16_t','uint32_t','uint64_t','int8_t','int16_t','int32_t','int64_t']
out=['#include <stdint.h>','#include <stddef.h>','''#ifdef BEHOST
static inline uint64_t sw(uint64_t v, int n) { uint64_t r = 0; for (int i = 0; i < n; i++) r |= ((v >> (8 * i)) & 0xff) << (8 * (n - 1 - i)); return r; }
#define LD(V, T, O) ((T) sw((uint64_t) *(V T *) (m + (O)), sizeof(T)))
#define ST(V, T, O, X) (*(V T *) (m + (O)) = (T) sw((uint64_t) (T) (X), sizeof(T)))
#define ftab ftab_be
#else
#define LD(V, T, O) (*(V T *) (m + (O)))
#define ST(V, T, O, X) (*(V T *) (m + (O)) = (X))
#endif''']
def expr(d,vars):
    if d==0 or R.random()<.15:
        return R.choice([R.choice(vars), R.choice(vars), '((%s)0x%xull)'%(R.choice(T),R.getrandbits(R.choice([3,8,12,16,20,32,48,64])))])
    k=R.randrange(14)
    e=lambda: expr(d-1,vars)
    if k<5: return '(%s %s %s)'%(e(),R.choice(['+','-','*','&','|','^','+','-']),e())
    if k==5: return '((uint%d_t)%s %s (%s & %d))'%(*(lambda w:(w,))(w:=R.choice([32,64])),e(),R.choice(['<<','>>']),e(),w-1)
    if k==6: w=R.choice([32,64]); return '((int%d_t)%s >> (%s & %d))'%(w,e(),e(),w-1)
    if k==7: return '((%s)%s)'%(R.choice(T),e())
    if k==8: return '(%s %s %s)'%(e(),R.choice(['<','>','<=','>=','==','!=']),e())
    if k==9: return '(%s ? %s : %s)'%(e(),e(),e())
    if k==10: return '(~(%s)%s)'%(R.choice(T),e())
    if k==11: return '(-(uint64_t)%s)'%e()
    if k==12: return '(!%s)'%e()
    return '((%s)(m[%s & 31]))'%(R.choice(T),e())
for i in range(N):
    out.append('static __attribute__((noinline)) uint64_t f%d(uint8_t *m) {'%i)
    vs=[]
    for v in range(R.randrange(2,7)):
        t=R.choice(T); n='v%d'%v
        out.append('\t%s %s = LD(%s, %s, %d);'%(t,n,R.choice(['','volatile ']),t,R.randrange(32)*8)); vs.append(n)
    for s in range(R.randrange(2,9)):
        k=R.randrange(8)
        if k<3: out.append('\t%s = %s;'%(R.choice(vs),expr(3,vs)))
        elif k==3: out.append('\tST(%s, %s, %d, %s);'%(R.choice(['','volatile ']),R.choice(T),R.randrange(32)*8,expr(2,vs)))
        elif k==4: out.append('\tif (%s) { %s = %s; ST(, %s, (%s & 31) * 8, %s); } else %s = %s;'%(expr(2,vs),R.choice(vs),expr(2,vs),R.choice(T),R.choice(vs),expr(1,vs),R.choice(vs),expr(2,vs)))
        elif k==5: out.append('\tfor (int i = 0; i < %d; i++) { m[i * %d + 1] ^= (uint8_t) %s; %s = %s; }'%(R.randrange(1,9),R.randrange(1,8),R.choice(vs),R.choice(vs),expr(2,vs)))
        elif k==6: out.append('\tswitch (%s & 7) { %s }'%(R.choice(vs),' '.join('case %d: %s = %s; break;'%(j,R.choice(vs),expr(1,vs)) for j in range(R.randrange(2,8)))))
        else: out.append('\t%s = %s;'%(R.choice(vs),('f%d(m)'%R.randrange(i) if i else '3')) if R.random()<.4 else '\t%s ^= %s;'%(R.choice(vs),expr(2,vs)))
    out.append('\treturn %s;\n}'%expr(2,vs))
out.append('uint64_t (*const ftab[])(uint8_t *) = {%s}; \n#ifndef HOST\nvoid _start(void) {}\n#endif'%','.join('f%d'%i for i in range(N)))
print('\n'.join(out))
