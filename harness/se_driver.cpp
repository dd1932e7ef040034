#include "esminiLib.hpp"
#include <cstdio>
#include <cstdlib>
int main(int argc,char**argv){ SE_SetSeed(1); SE_SetOptionPersistent("disable_stdout"); SE_AddPath("/repo/resources/xosc"); SE_AddPath("/repo/resources/xodr");
 int n=atoi(argv[2]); double dt=atof(argv[3]); int rep=argc>4?atoi(argv[4]):1;
 for(int k=0;k<rep;k++){ int r=SE_Init(argv[1],0,0,0,1); printf("init %d\n",r); if(r) {SE_Close();continue;} int i=0;
 for(;i<n&&SE_GetQuitFlag()==0;i++){ SE_StepDT(dt);} 
 for(int j=0;j<SE_GetNumberOfObjects();j++){SE_ScenarioObjectState s; SE_GetObjectState(SE_GetId(j),&s); printf("%d %s %.3f %.3f %.3f v=%.3f\n",s.id,SE_GetObjectName(s.id),s.x,s.y,s.h,s.speed);} printf("steps %d t=%f\n",i,SE_GetSimulationTime()); SE_Close();} return 0;}
