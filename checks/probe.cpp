#include "wr.h"
#include <iostream>
int main(int argc,char**argv){
  wr::hookAlloc();
  std::string all; 
  if(argc>1){ all=argv[1]; wr::RunOpt o; o.libs=true; if(argc>2) o.flags=atoi(argv[2]); if(argc>3)o.gcHint=atoi(argv[3]); printf("%s live=%ld\n", wr::runScript(all,o).c_str(), wr::g_live); return 0;}
  std::string line; while(std::getline(std::cin,line)){ if(line.empty())continue; fflush(stdout); pid_t p=fork(); if(!p){ wr::RunOpt o;o.libs=true;o.stack=getenv("ST")?atoi(getenv("ST")):64; std::string r=wr::runScript(line,o); printf("%-60.60s => %s%s\n", line.c_str(), r.c_str(), wr::g_live?wr::sf(" LEAK %ld",wr::g_live).c_str():""); fflush(stdout); _exit(0);} int st; waitpid(p,&st,0); if(st) printf("%-60.60s => CRASH %x\n", line.c_str(), st);}
}
