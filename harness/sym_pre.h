// Force-included when compiling for efsym: numbers printed into messages stay symbolic (as tokens)
// instead of being enumerated digit by digit.
#pragma once
#include <string>
#include <functional>
#include <iostream>
#include <sstream>
#include <vector>
#include <map>
#include <stdexcept>
extern "C" int efsym_int_token(long v,char* buf);
extern "C" int efsym_real_token(double v,char* buf);
namespace std {
inline string efsym_to_string(int v){ char b[40]; int n=efsym_int_token(v,b); return n?string(b,n):to_string(v); }
inline string efsym_to_string(unsigned v){ char b[40]; int n=efsym_int_token((long)v,b); return n?string(b,n):to_string(v); }
inline string efsym_to_string(long v){ char b[40]; int n=efsym_int_token(v,b); return n?string(b,n):to_string(v); }
inline string efsym_to_string(unsigned long v){ char b[40]; int n=efsym_int_token((long)v,b); return n?string(b,n):to_string(v); }
inline string efsym_to_string(long long v){ char b[40]; int n=efsym_int_token((long)v,b); return n?string(b,n):to_string(v); }
inline string efsym_to_string(unsigned long long v){ char b[40]; int n=efsym_int_token((long)v,b); return n?string(b,n):to_string(v); }
inline string efsym_to_string(double v){ char b[40]; int n=efsym_real_token(v,b); return n?string(b,n):to_string(v); }
inline string efsym_to_string(float v){ char b[40]; int n=efsym_real_token((double)v,b); return n?string(b,n):to_string(v); }
}
#define to_string efsym_to_string
