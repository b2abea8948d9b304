#pragma once
struct c10_st { int i; double d; };
union c10_un { int i; char c; };
enum c10_en { C10_A, C10_B };
typedef struct c10_st c10_t;
typedef void (*c10_cb)(int, const char *);
