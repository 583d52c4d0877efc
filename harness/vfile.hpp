// A text file whose contents may be symbolic: under efsym reads come from vf_text, natively it is a real file.
#pragma once
#include "sym.h"
#include <string>
extern std::string vf_text; extern size_t vf_pos;
static inline void vf_open(const char* name,const std::string& text){ FILE* f=fopen(name,"w"); if(sym_native()) fwrite(text.data(),1,text.size(),f); fclose(f); vf_text=text; vf_pos=0; }
