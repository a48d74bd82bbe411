// C15: C and Fortran interfaces against the C++ interface (see cif.hpp)
#include "cif.hpp"
int main(int argc, char** argv) {
   Args a = parse(argc, argv);
   std::string d = a.scratch + fmt("/cif%d", (int) getpid()); mkdir(d.c_str(), 0700); if( chdir(d.c_str()) ) return 7;
   if( a.mode == "c15" ) runCases(a, c15); else return 7;
   if( chdir("/") == 0 ) rmdir(d.c_str());
   return 0;
}
