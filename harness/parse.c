/* Reads POMDP files with the program's parser and dumps the model it got.
   Arguments: file...; for each one writes <file>.json.  One child each. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <math.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include "mdp.h"
#include "imm-reward.h"
#include "sparse-matrix.h"

static FILE *out;
static void num( double x ) {
  if( isfinite( x )) fprintf( out, "\"%.17g\"", x );
  else fprintf( out, "\"nan\"" );
}

static void dump( void ) {
  int a, i, j, z;
  fprintf( out, "{\"ns\":%d,\"na\":%d,\"no\":%d,\"values\":\"%s\",\"discount\":", gNumStates, gNumActions,
           gNumObservations, gValueType == COST_value_type ? "cost" : "reward" );
  num( gDiscount );
  fprintf( out, ",\"T\":[" );
  for( a = 0; a < gNumActions; a++ ) {
    fprintf( out, a ? ",[" : "[" );
    for( i = 0; i < gNumStates; i++ ) {
      fprintf( out, i ? ",[" : "[" );
      for( j = 0; j < gNumStates; j++ ) { if( j ) fputc( ',', out ); num( getEntryMatrix( P[a], i, j )); }
      fputc( ']', out );
    }
    fputc( ']', out );
  }
  fprintf( out, "],\"O\":[" );
  for( a = 0; a < gNumActions; a++ ) {
    fprintf( out, a ? ",[" : "[" );
    for( i = 0; i < gNumStates; i++ ) {
      fprintf( out, i ? ",[" : "[" );
      for( z = 0; z < gNumObservations; z++ ) { if( z ) fputc( ',', out ); num( getEntryMatrix( R[a], i, z )); }
      fputc( ']', out );
    }
    fputc( ']', out );
  }
  fprintf( out, "],\"R\":[" );
  for( a = 0; a < gNumActions; a++ ) {
    fprintf( out, a ? ",[" : "[" );
    for( i = 0; i < gNumStates; i++ ) {
      fprintf( out, i ? ",[" : "[" );
      for( j = 0; j < gNumStates; j++ ) {
        fprintf( out, j ? ",[" : "[" );
        for( z = 0; z < gNumObservations; z++ ) {
          if( z ) fputc( ',', out );
          num( getImmediateReward( a, i, j, z ));
        }
        fputc( ']', out );
      }
      fputc( ']', out );
    }
    fputc( ']', out );
  }
  fprintf( out, "],\"Q\":[" );
  for( a = 0; a < gNumActions; a++ ) {
    fprintf( out, a ? ",[" : "[" );
    for( i = 0; i < gNumStates; i++ ) { if( i ) fputc( ',', out ); num( getEntryMatrix( Q, a, i )); }
    fputc( ']', out );
  }
  fprintf( out, "],\"b\":[" );
  for( i = 0; i < gNumStates; i++ ) { if( i ) fputc( ',', out ); num( gInitialBelief[i] ); }
  fprintf( out, "]}" );
}

int main( int argc, char **argv ) {
  int k, st;
  for( k = 1; k < argc; k++ ) {
    char name[4096];
    pid_t pid;
    snprintf( name, sizeof name, "%s.json", argv[k] );
    pid = fork();
    if( pid == 0 ) {
      int fd = open( "/dev/null", O_RDWR );
      dup2( fd, 1 ); dup2( fd, 2 );
      alarm( 10 );
      if( ! readMDP( argv[k] ) || gProblemType != POMDP_problem_type ) {
        out = fopen( name, "w" );
        fprintf( out, "{\"status\":\"rejected\"}" );
        fclose( out );
        _exit( 0 );
      }
      out = fopen( name, "w" );
      fprintf( out, "{\"status\":\"ok\",\"dump\":" );
      dump();
      fprintf( out, "}" );
      fclose( out );
      deallocateMDP();
      _exit( 0 );
    }
    waitpid( pid, &st, 0 );
    if( ! WIFEXITED( st ) || WEXITSTATUS( st ) != 0 ) {
      FILE *f = fopen( name, "w" );
      if( WIFSIGNALED( st )) fprintf( f, "{\"status\":\"signal %d\"}", WTERMSIG( st ));
      else fprintf( f, "{\"status\":\"rejected\",\"exit\":%d}", WEXITSTATUS( st ));
      fclose( f );
    }
  }
  return 0;
}
