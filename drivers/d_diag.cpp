// the diagnostic macros, each used once: analysed with every combination of the switches
#include <string>
#include "debug.hpp"
void use_info(int a) { info_update("text", a); }
void use_info_if(bool c, int a) { info_update_if(c, "text", a); }
void use_debug(int a) { debug_update("text", a); (void)a; }
void use_debug_if(bool c, int a) { debug_update_if(c, "text", a); (void)a; (void)c; }
void use_verbose(int a) { verbose_update("text", a); (void)a; }
void use_verbose_if(bool c, int a) { verbose_update_if(c, "text", a); (void)a; (void)c; }
void use_profile(int a) { profile_update("text", a); (void)a; }
void use_profile_if(bool c, int a) { profile_update_if(c, "text", a); (void)a; (void)c; }
void use_exec(int &a) { debug_exec(a = 1;) (void)a; }
// 
