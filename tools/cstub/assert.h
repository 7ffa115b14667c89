void vx_check(_Bool);
#define assert(x) vx_check(x)
