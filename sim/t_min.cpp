#include "rt.h"
#include <cstdio>
int main(int c,char**v){ sim::init(); sim::RunCfg k; for(int i=2;i<c;i++)k.argv.push_back(v[i]); k.nthreads=atoi(v[1]); FILE*f=fopen("/repo/CONF/input_file","rb"); static char b[65536]; size_t n=fread(b,1,65536,f); sim::disk_put("in",b,n); sim::run(k); printf("%s code %d %s\n", sim::status_name(sim::result()->status), sim::result()->code, sim::result()->msg); puts(sim::result_stdout().c_str()); puts(sim::result_stderr().c_str());}
