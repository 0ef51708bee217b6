/* Applies operations to the program's sparse matrices, tables and index
   lists.  Arguments: script, then for each line one line of output.
     ! rows cols capacity      starts afresh
     name i j x key val        ("-" for the empty string) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "global.h"
#include "mdp-common.h"
#include "sparse-matrix.h"
#include "associative-array.h"
#include "index-list.h"

static I_Matrix M;
static AssocArray T;
static IndexList X;
static int rows, cols, cap;
static char keys[4096][64];
static int nkeys;

static void dump( void ) {
  int i, j, k, n = 0;
  const char *ok = "ok";
  Matrix m;
  I_Matrix_Row_Node p;
  for( i = 0; i < rows; i++ ) {
    k = 0; j = -1;
    for( p = M->row[i]; p != NULL; p = p->next ) {
      if( p->column <= j || p->column >= cols ) ok = "the columns of a row are out of order";
      j = p->column;
      if( ++k > 1000 ) { ok = "a row has no end"; break; }
    }
    if( k != M->row_length[i] ) ok = "the length of a row is wrong";
    n += k;
  }
  if( strcmp( ok, "ok" ) == 0 && countEntriesInIMatrix( M ) != n ) ok = "the number of entries is wrong";
  printf( ",\"post\":{\"m\":[" );
  if( strcmp( ok, "ok" ) == 0 ) {
    m = transformIMatrix( M );
    if( m->num_non_zero != n || m->num_rows != rows ) ok = "the closed matrix has another size";
    for( i = 0; i < rows; i++ ) {
      double s = 0;
      printf( i ? ",[" : "[" );
      for( j = 0; j < cols; j++ ) {
        double x = getEntryMatrix( m, i, j );
        s += x;
        printf( j ? ",%ld" : "%ld", lround( x ));
        if( fabs( x - round( x )) > 1e-6 ) ok = "an entry is not what was stored";
      }
      printf( "]" );
      if( fabs( s - sumRowValues( m, i )) > 1e-6 || fabs( s - sumIMatrixRowValues( M, i )) > 1e-6 ) ok = "a row sum is wrong";
      k = 0;
      for( p = M->row[i]; p != NULL; p = p->next ) k++;
      if( m->row_length[i] != k ) ok = "the closed matrix has rows of another length";
    }
    destroyMatrix( m );
  }
  printf( "],\"cap\":%d,\"keys\":[", cap );
  for( i = 0; i < nkeys; i++ ) printf( i ? ",\"%s\"" : "\"%s\"", keys[i] );
  printf( "],\"vals\":[" );
  for( i = 0; i < nkeys; i++ ) {
    char *v = AA_get( T, keys[i] );
    printf( i ? ",\"%s\"" : "\"%s\"", v == NULL ? "NULL" : v );
  }
  printf( "],\"x\":[" );
  for( i = 0; i < IL_sizeOf( X ); i++ ) printf( i ? ",%d" : "%d", X->element[i] );
  printf( "]},\"ok\":\"%s\"}\n", ok );
  fflush( stdout );
}

int main( int argc, char **argv ) {
  char line[1024], k[64], key[64], val[64];
  FILE *f = fopen( argv[1], "r" );
  int i, j, x;
  while( fgets( line, sizeof line, f ) != NULL ) {
    if( line[0] == '!' ) {
      if( M != NULL ) { destroyIMatrix( M ); AA_delete( T ); IL_dispose( X ); }
      if( sscanf( line + 1, "%d %d %d", &rows, &cols, &cap ) != 3 ) return 4;
      M = newIMatrix( rows );
      T = AA_new( cap, 64 );
      X = IL_new();
      nkeys = 0;
      continue;
    }
    if( sscanf( line, "%63s %d %d %d %63s %63s", k, &i, &j, &x, key, val ) != 6 ) return 4;
    if( strcmp( key, "-" ) == 0 ) key[0] = 0;
    if( strcmp( val, "-" ) == 0 ) val[0] = 0;
    if( strcmp( k, "set" ) == 0 ) { addEntryToIMatrix( M, i - 1, j - 1, x ); printf( "{\"r\":0" ); }
    else if( strcmp( k, "accumulate" ) == 0 ) { accumulateEntryInIMatrix( M, i - 1, j - 1, x ); printf( "{\"r\":0" ); }
    else if( strcmp( k, "rowsum" ) == 0 ) printf( "{\"r\":%ld", lround( sumIMatrixRowValues( M, i - 1 )));
    else if( strcmp( k, "fresh" ) == 0 ) { destroyIMatrix( M ); M = newIMatrix( rows ); printf( "{\"r\":0" ); }
    else if( strcmp( k, "put" ) == 0 ) {
      int r = AA_put( T, key, val );
      if( r == 1 ) strcpy( keys[nkeys++], key );
      printf( "{\"r\":%d", r );
    }
    else if( strcmp( k, "get" ) == 0 ) { char *v = AA_get( T, key ); printf( "{\"r\":\"%s\"", v == NULL ? "" : v ); }
    else if( strcmp( k, "entries" ) == 0 ) printf( "{\"r\":%d", AA_size( T ));
    else if( strcmp( k, "index" ) == 0 ) { IL_append( X, x ); printf( "{\"r\":0" ); }
    else if( strcmp( k, "indices" ) == 0 ) printf( "{\"r\":%d", IL_sizeOf( X ));
    else return 3;
    dump();
  }
  return 0;
}
