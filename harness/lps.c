/* Solves linear programs through the program's interface, and looks for
   witness points with its region routine.  Argument: a file of
     lp sense rows cols  objective  (sense rhs coefficients)*  lower  upper
     region states vectors  vector  list  epsilon
   ("inf" is the solver's infinity).  A line of output for each. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "global.h"
#include "mdp.h"
#include "pomdp.h"
#include "alpha.h"
#include "params.h"
#include "lp-interface.h"
#include "region.h"

static double num( FILE *f ) {
  char t[128];
  if( fscanf( f, "%127s", t ) != 1 ) exit( 4 );
  if( strcmp( t, "inf" ) == 0 ) return INFBOUND;
  return atof( t );
}
static void show( int n, double *x ) {
  int i;
  printf( "\"x\":[" );
  for( i = 0; i < n; i++ ) printf( i ? ",\"%.15f\"" : "\"%.15f\"", x[i] );
  printf( "]" );
}
int main( int argc, char **argv ) {
  FILE *f = fopen( argv[1], "r" );
  char w[64];
  int i, j, k;
  PomdpSolveParams param = newPomdpSolveParams();
  gStdErrFile = stderr;
  gValueType = REWARD_value_type;
  gNumActions = gNumObservations = 1;
  initLpInterface( param );
  while( fscanf( f, "%63s", w ) == 1 ) {
    if( strcmp( w, "lp" ) == 0 ) {
      char sense[64][4];
      double rhs[64], a[64][64], c[64];
      int sn, rows, cols, nz = 0, st;
      LP lp;
      if( fscanf( f, "%d %d %d", &sn, &rows, &cols ) != 3 ) return 4;
      for( j = 0; j < cols; j++ ) c[j] = num( f );
      for( i = 0; i < rows; i++ ) {
        if( fscanf( f, "%3s", sense[i] ) != 1 ) return 4;
        rhs[i] = num( f );
        for( j = 0; j < cols; j++ ) { a[i][j] = num( f ); if( a[i][j] != 0 ) nz++; }
      }
      lp = LP_newLP( rows, cols, nz > 0 ? nz : 1 );
      lp->objsen = sn > 0 ? MAXIMIZE : MINIMIZE;
      for( j = 0; j < cols; j++ ) lp->obj[j] = c[j];
      for( i = 0; i < rows; i++ ) { lp->sense[i] = sense[i][0]; lp->rhs[i] = rhs[i]; }
      for( j = 0, k = 0; j < cols; j++ ) {
        lp->matbeg[j] = k;
        for( i = 0; i < rows; i++ ) if( a[i][j] != 0 ) { lp->matind[k] = i; lp->matval[k++] = a[i][j]; }
        lp->matcnt[j] = k - lp->matbeg[j];
      }
      for( j = 0; j < cols; j++ ) lp->lowbnd[j] = num( f );
      for( j = 0; j < cols; j++ ) lp->upbnd[j] = num( f );
      st = LP_solveLP( lp, NULL );
      printf( "{\"found\":%s,\"value\":\"%.15f\",", st == LP_OPTIMAL ? "true" : "false", st == LP_OPTIMAL ? lp->objval : 0.0 );
      if( st == LP_OPTIMAL ) show( cols, lp->x ); else show( 0, NULL );
      printf( "}\n" );
      LP_freeLP( lp );
    }
    else {
      int n;
      double *v, *x, d = 0;
      AlphaList l = newAlphaList();
      if( fscanf( f, "%d %d", &gNumStates, &n ) != 2 ) return 4;
      v = newAlpha();
      for( j = 0; j < gNumStates; j++ ) v[j] = num( f );
      for( i = 0; i < n; i++ ) {
        x = newAlpha();
        for( j = 0; j < gNumStates; j++ ) x[j] = num( f );
        appendAlphaList( l, x, 0 );
      }
      param->epsilon = num( f );
      x = newAlpha();
      k = findRegionPoint( v, l, x, &d, param );
      printf( "{\"found\":%s,\"value\":\"%.15f\",", k ? "true" : "false", k && n > 0 ? d : 0.0 );
      if( k ) show( gNumStates, x ); else show( 0, NULL );
      printf( "}\n" );
      destroyAlpha( v );
      destroyAlpha( x );
      destroyAlphaList( l );
    }
    fflush( stdout );
  }
  return 0;
}
