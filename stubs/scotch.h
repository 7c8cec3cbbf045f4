// Stand-in for the Scotch library (not installed): the types and calls partition_scotch uses; the harness implements the calls.
#pragma once
struct SCOTCH_Graph{int x;}; struct SCOTCH_Arch{int x;}; struct SCOTCH_Strat{int x;};
typedef int SCOTCH_Num;
#define SCOTCH_STRATSPEED 1
extern "C" {int SCOTCH_graphInit(SCOTCH_Graph*);int SCOTCH_graphBuild(SCOTCH_Graph*,SCOTCH_Num,SCOTCH_Num,const SCOTCH_Num*,const SCOTCH_Num*,const SCOTCH_Num*,const SCOTCH_Num*,SCOTCH_Num,const SCOTCH_Num*,const SCOTCH_Num*);
int SCOTCH_graphCheck(SCOTCH_Graph*);int SCOTCH_archInit(SCOTCH_Arch*);int SCOTCH_archCmplt(SCOTCH_Arch*,SCOTCH_Num);int SCOTCH_stratInit(SCOTCH_Strat*);int SCOTCH_stratGraphClusterBuild(SCOTCH_Strat*,SCOTCH_Num,SCOTCH_Num,double,double);int SCOTCH_graphMap(SCOTCH_Graph*,SCOTCH_Arch*,SCOTCH_Strat*,SCOTCH_Num*);void SCOTCH_graphExit(SCOTCH_Graph*);void SCOTCH_stratExit(SCOTCH_Strat*);void SCOTCH_archExit(SCOTCH_Arch*);}
