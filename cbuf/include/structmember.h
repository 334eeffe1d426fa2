#define T_OBJECT_EX 16
#define READONLY 1
