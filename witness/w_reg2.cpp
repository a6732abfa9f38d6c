// what happens before main() is called, and then main()
#include <falcon/fut/fut.h>
namespace wit {
extern void init1() __asm__("_GLOBAL__sub_I_w_reg.cpp");
extern void init2() __asm__("_GLOBAL__sub_I_w_reg3.cpp");
extern int entry(int argc, char** argv) __asm__("main");
int main(int argc, char* argv[]);
#define ARGV(...) const char* argv[] = { "dir/prog.fut", __VA_ARGS__, nullptr }; int argc = sizeof(argv)/sizeof(argv[0]) - 1; char** av = const_cast<char**>(argv);
int r_12() { init1(); init2(); ARGV("-v", "3") return main(argc, av); }
int r_21() { init2(); init1(); ARGV("-v", "3") return main(argc, av); }
int r_select() { init1(); init2(); ARGV("-v", "3", "-t", "Fix::other", "-t", "Base::one", "-t", "01_Numbered::03_name") return main(argc, av); }
int r_wrong() { init1(); init2(); ARGV("-v", "3", "-t", "Fix::otherr") return main(argc, av); }
int r_entry() { init1(); init2(); ARGV("-v", "3") return entry(argc, av); }
int r_entryselect() { init1(); init2(); ARGV("-v", "3", "-t", "Comp::third") return entry(argc, av); }
int r_count() { init1(); init2(); ARGV("-v", "3", "-t", "Comp::third", "-t", "Comp::first") return main(argc - 2, av); }
int r_entrycount() { init1(); init2(); ARGV("-v", "3", "-t", "Comp::third", "-t", "Comp::first") return entry(argc - 2, av); }
int r_none() { ARGV("-v", "3") return main(argc, av); }
}
