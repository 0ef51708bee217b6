/* Applies operations to the program's own collections and prints what came
   out.  Arguments: list kind (alpha or points), number of states, script.
   A line "!" starts afresh; any other line is one operation:
     name list action tag index tolerance vector second-vector
   After each, one line: result, and both lists (or what is wrong with them). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "global.h"
#include "pomdp.h"
#include "mdp.h"
#include "alpha.h"
#include "double-vector.h"

static AlphaList L[2];
static DoubleVectorList D[2];
static int points, n;
static double wit[9][16];

static double *vec( double *v ) {
  double *x = points ? DV_new() : newAlpha();
  int i;
  for( i = 0; i < n; i++ ) x[i] = v[i];
  return x;
}
static int tag( AlphaList p ) { return p == NULL ? 0 : (int) (long) p->hook; }
static int dtag( DoubleVectorNode p ) { return p == NULL ? 0 : (int) (long) p->attr; }
static int gone( AlphaList p ) {
  int t = tag( p );
  if( p != NULL ) destroyAlphaNode( p );
  return t;
}
static AlphaList at( AlphaList l, int i ) {
  AlphaList p = l->head;
  while( --i > 0 ) p = p->next;
  return p;
}
static void one( int first, int a, double *v, int m, double *w, int t ) {
  int i, k = 0;
  printf( first ? "{\"a\":%d,\"v\":[" : ",{\"a\":%d,\"v\":[", a );
  for( i = 0; i < n; i++ ) printf( i ? ",%d" : "%d", (int) v[i] );
  if( w != NULL ) {
    for( k = 1; k < 9; k++ ) if( memcmp( w, wit[k], n * sizeof( double )) == 0 ) break;
  }
  printf( "],\"m\":%s,\"w\":%d,\"t\":%d}", m == TRUE ? "true" : "false", k, t );
}
static const char *broken( void ) {
  int l;
  for( l = 0; l < 2; l++ ) {
    int k = 0;
    if( points ) {
      DoubleVectorNode p, q = NULL;
      for( p = D[l]->head; p != NULL && k <= 1000; p = p->next ) { q = p; k++; }
      if( k > 1000 ) return "the list has no end";
      if( k != D[l]->length || k != DV_sizeOfList( D[l] )) return "the length is wrong";
      if( D[l]->tail != q && ! ( k == 0 )) return "the last node is wrong";
    }
    else {
      AlphaList p, q = NULL;
      for( p = L[l]->head; p != NULL && k <= 1000; p = p->next ) { q = p; k++; }
      if( k > 1000 ) return "the list has no end";
      if( k != L[l]->length || k != sizeAlphaList( L[l] )) return "the length is wrong";
      if( L[l]->tail != q && ! ( k == 0 )) return "the last node is wrong";
    }
  }
  return "ok";
}
static void dump( void ) {
  const char *b = broken();
  int l, f;
  printf( ",\"ok\":\"%s\",\"post\":{", b );
  for( l = 0; l < 2; l++ ) {
    printf( l ? ",\"B\":[" : "\"A\":[" );
    f = 1;
    if( strcmp( b, "ok" ) == 0 ) {
      if( points ) {
        DoubleVectorNode p;
        for( p = D[l]->head; p != NULL; p = p->next ) { one( f, 0, p->v, FALSE, NULL, dtag( p )); f = 0; }
      }
      else {
        AlphaList p;
        for( p = L[l]->head; p != NULL; p = p->next ) { one( f, p->action, p->alpha, p->mark, p->witness, tag( p )); f = 0; }
      }
    }
    printf( "]" );
  }
  printf( "}}\n" );
  fflush( stdout );
}
#define IS(x) ( strcmp( k, x ) == 0 )

/* operations on a node that is not there, and copies of nodes that would share a witness point, are no operations */
static int senseless( char *k, int s, int i ) {
  int len = points ? D[s]->length : L[s]->length, olen = points ? D[1 - s]->length : L[1 - s]->length;
  AlphaList p;
  if( IS( "mark" ) || IS( "witness" ) || IS( "extract" )) return i > len;
  if( IS( "foreign" )) return i > olen;
  if( IS( "copynode" )) return i > olen || ( ! points && at( L[1 - s], i )->witness != NULL );
  if( IS( "dupw" )) for( p = L[s]->head; p != NULL; p = p->next ) if( p->witness == NULL ) return 1;
  return 0;
}
static void alpha( char *k, int s, int a, int t, int i, double e, double *v, double *u ) {
  AlphaList l = L[s], o = L[1 - s], p;
  int r = 0, j;
  if( IS( "append" )) { p = appendAlphaList( l, vec( v ), a ); p->hook = (void *) (long) t; r = tag( p ); }
  else if( IS( "prepend" )) { p = prependAlphaList( l, vec( v ), a ); p->hook = (void *) (long) t; r = tag( p ); }
  else if( IS( "unique" )) {
    double *x = vec( v );
    p = appendUniqueAlphaList( l, x, a, e );
    if( p == NULL ) destroyAlpha( x ); else p->hook = (void *) (long) t;
    r = tag( p );
  }
  else if( IS( "dequeue" )) r = gone( dequeueAlphaNode( l ));
  else if( IS( "size" )) r = sizeAlphaList( l );
  else if( IS( "maxsize" )) r = maxSizeAlphaLists( L, 2 );
  else if( IS( "find" )) r = tag( findAlphaVector( l, v, e ));
  else if( IS( "query" )) r = queryAlphaList( l, v, e ) != 0;
  else if( IS( "extractvec" )) r = gone( extractFromAlphaList( l, v, e ));
  else if( IS( "removevec" )) r = removeFromAlphaList( l, v, e ) != 0;
  else if( IS( "extract" )) r = gone( extractAlphaNode( l, at( l, i )));
  else if( IS( "foreign" )) r = tag( extractAlphaNode( l, at( o, i )));
  else if( IS( "mark" )) at( l, i )->mark = TRUE;
  else if( IS( "clearmarks" )) clearMarkAlphaList( l );
  else if( IS( "markall" )) markAllAlphaList( l );
  else if( IS( "unmarked" )) r = sizeUnmarkedAlphaList( l );
  else if( IS( "allmarked" )) r = allMarkedAlphaList( l ) != 0;
  else if( IS( "findunmarked" )) r = tag( findUnmarkedVector( l ));
  else if( IS( "extractunmarked" )) r = gone( extractUnmarkedVector( l ));
  else if( IS( "markdominated" )) r = markDominatedAlphaList( v, l );
  else if( IS( "dominated" )) r = dominatedAlphaList( v, l ) != 0;
  else if( IS( "removedominated" )) r = removeDominatedAlphaList( v, l );
  else if( IS( "removemarked" )) r = removeMarkedAlphaList( l );
  else if( IS( "extractmarked" )) {
    p = extractMarkedAlphaList( l );
    r = sizeAlphaList( p );
    if( r > 0 ) unionTwoAlphaLists( o, p );
    else destroyAlphaList( p );
  }
  else if( IS( "best" ) || IS( "bestover" )) {
    double b[16], x = 0;
    for( j = 0; j < n; j++ ) b[j] = v[j] / 2;
    if( IS( "best" )) p = bestVector( l, b, &x, 0.25 );
    else p = bestVectorPrimed( l, b, &x, i / 2.0, 0.25 );
    if( l->length == 0 && IS( "best" )) x = 0;
    printf( "{\"r\":[%d,%d]", tag( p ), (int) ( 2 * x ));
    dump();
    return;
  }
  else if( IS( "removebest" )) {
    double b[16];
    for( j = 0; j < n; j++ ) b[j] = v[j] / 2;
    r = gone( removebestVectorNode( l, b, 0.25 ));
  }
  else if( IS( "sort" )) sortAlphaList( l );
  else if( IS( "copy" )) { destroyAlphaList( o ); L[1 - s] = duplicateAlphaList( l ); }
  else if( IS( "dupw" )) { destroyAlphaList( o ); L[1 - s] = duplicateAlphaListWithWitnesses( l ); }
  else if( IS( "copynode" )) {
    p = appendDuplicateNodeToAlphaList( l, at( o, i ));
    p->hook = (void *) (long) t;
    r = t;
  }
  else if( IS( "witness" )) addWitnessToAlphaNode( at( l, i ), wit[a] );
  else if( IS( "union" )) {
    int z = o->length == 0;
    unionTwoAlphaLists( l, o );
    if( ! z ) L[1 - s] = newAlphaList();
  }
  else if( IS( "same" )) r = sameAlphaList( l, o, e ) != 0;
  else if( IS( "similar" )) r = similarAlphaList( l, o, e ) != 0;
  else if( IS( "renumber" )) {
    renumberAlphaList( l );
    printf( "{\"r\":[" );
    for( p = l->head; p != NULL; p = p->next ) printf( p == l->head ? "%d" : ",%d", p->id );
    printf( "]" );
    dump();
    return;
  }
  else if( IS( "clear" )) clearAlphaList( l );
  else if( IS( "vsame" )) r = sameAlpha( v, u, e ) != 0;
  else if( IS( "vzero" )) r = isZeroAlpha( v, e ) != 0;
  else if( IS( "vlex" )) r = isLexicographicallyBetterAlpha( v, u, e ) != 0;
  else if( IS( "vdom" )) r = isDominatedVector( v, u ) != 0;
  else if( IS( "vcopy" )) {
    double *x = newAlpha(), *y;
    copyAlpha( x, v );
    y = duplicateAlpha( x );
    printf( "{\"r\":[" );
    for( j = 0; j < n; j++ ) printf( j ? ",%d" : "%d", (int) y[j] );
    printf( "]" );
    destroyAlpha( x );
    destroyAlpha( y );
    dump();
    return;
  }
  else exit( 3 );
  printf( "{\"r\":%d", r );
  dump();
}
static DoubleVectorNode dat( DoubleVectorList l, int i ) {
  DoubleVectorNode p = l->head;
  while( --i > 0 ) p = p->next;
  return p;
}
static void point( char *k, int s, int a, int t, int i, double e, double *v, double *u ) {
  DoubleVectorList l = D[s], o = D[1 - s];
  DoubleVectorNode p;
  int r = 0, j;
  if( IS( "append" )) r = dtag( DV_appendList( l, vec( v ), (void *) (long) t ));
  else if( IS( "prepend" )) r = dtag( DV_prependList( l, vec( v ), (void *) (long) t ));
  else if( IS( "dequeue" )) { p = DV_dequeueNode( l ); r = dtag( p ); if( p != NULL ) DV_destroyNode( p ); }
  else if( IS( "size" )) r = DV_sizeOfList( l );
  else if( IS( "find" )) r = dtag( DV_findNode( l, v, e ));
  else if( IS( "query" )) r = DV_queryList( l, v, e ) != 0;
  else if( IS( "copy" )) { DV_destroyList( o ); D[1 - s] = DV_duplicateList( l ); }
  else if( IS( "copynode" )) {
    p = DV_appendDuplicateNodeToList( l, dat( o, i ));
    p->attr = (void *) (long) t;
    r = t;
  }
  else if( IS( "union" )) {
    int z = o->length == 0;
    DV_unionTwoLists( l, o );
    if( ! z ) D[1 - s] = DV_newList( NULL );
  }
  else if( IS( "same" )) r = DV_isSameList( l, o, e ) != 0;
  else if( IS( "similar" )) r = DV_isSimilaraList( l, o, e ) != 0;
  else if( IS( "renumber" )) {
    DV_renumberList( l );
    printf( "{\"r\":[" );
    for( p = l->head; p != NULL; p = p->next ) printf( p == l->head ? "%d" : ",%d", p->id );
    printf( "]" );
    dump();
    return;
  }
  else if( IS( "clear" )) DV_clearList( l );
  else if( IS( "vsame" )) r = DV_isSame( v, u, e ) != 0;
  else if( IS( "vzero" )) r = DV_isZero( v, e ) != 0;
  else if( IS( "vlex" )) r = DV_isLexicographicallyBetter( v, u, e ) != 0;
  else if( IS( "vdom" )) r = DV_isDominated( v, u ) != 0;
  else if( IS( "vcopy" )) {
    double *x = DV_new(), *y;
    DV_copy( x, v );
    y = DV_duplicate( x );
    printf( "{\"r\":[" );
    for( j = 0; j < n; j++ ) printf( j ? ",%d" : "%d", (int) y[j] );
    printf( "]" );
    DV_destroy( x );
    DV_destroy( y );
    dump();
    return;
  }
  else exit( 3 );
  printf( "{\"r\":%d", r );
  dump();
}
int main( int argc, char **argv ) {
  char line[1024], k[64];
  FILE *f;
  int l, i, a, t, x, e, off, d;
  double v[16], u[16];
  char which[4];
  points = strcmp( argv[1], "points" ) == 0;
  gNumStates = n = atoi( argv[2] );
  gNumObservations = 1;
  gValueType = REWARD_value_type;
  for( i = 1; i < 9; i++ ) for( l = 0; l < n; l++ ) wit[i][l] = i + 10 * l;
  for( l = 0; l < 2; l++ ) { L[l] = newAlphaList(); D[l] = DV_newList( NULL ); }
  f = fopen( argv[3], "r" );
  while( fgets( line, sizeof line, f ) != NULL ) {
    if( line[0] == '!' ) {
      for( l = 0; l < 2; l++ ) {
        if( points ) { DV_destroyList( D[l] ); D[l] = DV_newList( NULL ); }
        else { destroyAlphaList( L[l] ); L[l] = newAlphaList(); }
      }
      continue;
    }
    if( sscanf( line, "%63s %3s %d %d %d %d%n", k, which, &a, &t, &x, &e, &off ) < 6 ) return 4;
    for( i = 0; i < 2 * n; i++ ) {
      if( sscanf( line + off, "%d%n", &l, &d ) < 1 ) return 4;
      off += d;
      if( i < n ) v[i] = l; else u[i - n] = l;
    }
    if( strcmp( broken(), "ok" ) == 0 && senseless( k, which[0] - 'A', x )) { printf( "{\"skip\":1}\n" ); continue; }
    ( points ? point : alpha )( k, which[0] - 'A', a, t, x, e + .5, v, u );
  }
  return 0;
}
