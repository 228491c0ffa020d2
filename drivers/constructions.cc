// Constructions on complexes, spines, Euler characteristic, intersection
// homology.
#include "common.hh"

#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/EulerCharacteristic.hh>
#include <aleph/persistentHomology/PhiPersistence.hh>

#include <aleph/topology/BarycentricSubdivision.hh>
#include <aleph/topology/Filter.hh>
#include <aleph/topology/QuotientSpaces.hh>
#include <aleph/topology/Skeleton.hh>
#include <aleph/topology/Spine.hh>

using namespace aleph;
using namespace aleph::topology;
using namespace vh;

const double SCALE = 4;

template <class S> J constructions( const J& c )
{
  using D = typename S::DataType;
  auto kind = c["k"].s;
  auto K = complexFrom<S>( c["K"], c["W"], SCALE );

  J r = J::obj();

  if( kind == "cone" )
  {
    D a = static_cast<D>( c["a"].i );
    D b = enc<D>( c["b"].i, SCALE );
    auto f = [a,b] ( const S& s ) { return s.empty() ? b : static_cast<D>( s.data() * a + b ); };
    r.set( "cone0", complexTo( cone( K ), SCALE ) ).set( "cone", complexTo( cone( K, f ), SCALE ) );
    r.set( "suspension0", complexTo( suspension( K ), SCALE ) ).set( "suspension", complexTo( suspension( K, f ), SCALE ) );
  }
  else if( kind == "skeleton" )
  {
    J sk = J::arr();
    for( std::size_t k = 0; k < 5; k++ )
      sk.push( complexTo( Skeleton()( k, K ), SCALE ) );
    D t = enc<D>( c["t2"].i, SCALE );
    r.set( "skeleta", sk ).set( "filtered", complexTo( Filter()( K, [t] ( const S& s ) { return s.data() <= t; } ), SCALE ) );
  }
  else if( kind == "subdivision" )
  {
    auto f = c["f"].template as<double>();
    BarycentricSubdivision subdivision;
    r.set( "plain", complexTo( subdivision( K ), SCALE ) );
    r.set( "scaled", complexTo( subdivision( K, [&f] ( std::size_t d ) { return f.at( d ); } ), SCALE ) );
  }
  else if( kind == "spine" )
  {
    r = J::arr();
    r.push( complexTo( spine( K ), SCALE ) );
    if( c["slow"].b )
      r.push( complexTo( topology::dumb::spine( K ), SCALE ) );
  }
  else if( kind == "faces" )
  {
    auto cofaces = buildCofaceMap( K );
    r = J::arr();
    for( auto&& s : K )
    {
      J x = J::obj(), cs = J::arr();
      for( auto&& t : cofaces.at( s ) )
        cs.push( vertices( t ) );
      x.set( "s", vertices( s ) ).set( "cofaces", cs );
      x.set( "principal", J( isPrincipal( cofaces, s ) ) ).set( "slowPrincipal", J( topology::dumb::isPrincipal( s, K ) ) );
      x.set( "free", vertices( getFreeFace( cofaces, s ) ) ).set( "slowFree", vertices( topology::dumb::isAdmissible( s, K ) ) );
      r.push( x );
    }

    J all = J::arr();
    for( auto&& pairs : { getPrincipalFaces( cofaces, K ), topology::dumb::principalFaces( K ) } )
    {
      J x = J::arr();
      for( auto&& p : pairs )
        x.push( J::arr().push( vertices( p.first ) ).push( vertices( p.second ) ) );
      all.push( x );
    }
    J both = J::obj();
    both.set( "each", r ).set( "all", all );
    r = both;
  }
  else if( kind == "euler" )
  {
    J direct = J::arr(), fromDiagrams = J::arr();
    std::vector<S> simplices( K.begin(), K.end() );
    for( std::size_t k = 1; k <= simplices.size(); k++ )
    {
      SimplicialComplex<S> L( simplices.begin(), simplices.begin() + long( k ) );
      direct.push( J( eulerCharacteristic( L ) ) );
      auto dgms = calculatePersistenceDiagrams( L, k % 2 == 0, true );
      fromDiagrams.push( J( eulerCharacteristic( dgms.begin(), dgms.end() ) ) );
    }
    auto dgms = calculatePersistenceDiagrams( K, true, true );
    for( auto&& dgm : dgms )
      dgm.removeUnpaired();
    J ds = J::arr();
    for( auto&& dgm : dgms )
      ds.push( diagramTo( dgm, SCALE ) );
    r.set( "direct", direct ).set( "diagrams", fromDiagrams ).set( "dgms", ds );
    r.set( "persistent", decDifference( persistentEulerCharacteristic( dgms.begin(), dgms.end() ), SCALE ) );
  }
  return r;
}

// Sequences of diagrams with any dimensions, in any order
J sequences( const J& c )
{
  std::vector< PersistenceDiagram<double> > v;
  for( auto&& d : c["D"].a )
  {
    PersistenceDiagram<double> D;
    D.setDimension( std::size_t( d["dim"].i ) );
    for( auto&& p : d["pts"].a )
      D.add( enc<double>( p[0].i, SCALE ), enc<double>( p[1].i, SCALE ) );
    v.push_back( D );
  }
  J r = J::obj();
  r.set( "persistent", decDifference( persistentEulerCharacteristic( v.begin(), v.end() ), SCALE ) );
  std::size_t i = 0;
  for( auto&& d : c["D"].a )
  {
    for( auto&& x : d["inf"].a )
      v[i].add( enc<double>( x.i, SCALE ) );
    ++i;
  }
  r.set( "chi", J( eulerCharacteristic( v.begin(), v.end() ) ) );
  return r;
}

template <class S> J partitions( const J& c )
{
  auto K = complexFrom<S>( c["K"], c["W"], SCALE );
  auto p = aleph::partition( K, [&] ( const S& s ) { return c["phi"][ K.index( s ) ].b; } );
  J r = J::obj();
  r.set( "L", complexTo( p.first, SCALE ) ).set( "n", J( p.second ) );
  return r;
}

template <class S, class P> J intersection( const J& c, const P& p, std::size_t first )
{
  auto K = complexFrom<S>( c["K"], c["W"], SCALE );
  std::vector< SimplicialComplex<S> > X;
  for( auto&& x : c["X"].a )
  {
    J zero = J::arr();
    for( std::size_t k = 0; k < x.size(); k++ )
      zero.push( J( 0 ) );
    X.push_back( complexFrom<S>( x, zero ) );
  }

  J values = J::arr(), at = J::arr(), dgms = J::arr();
  for( auto&& v : p )
    values.push( J( static_cast<long long>( v ) ) );
  for( std::size_t k = first; k < 8; k++ )
    at.push( J( static_cast<long long>( p( k ) ) ) );

  J r = J::obj();
  r.set( "values", values ).set( "at", at ).set( "error", J( "" ) );
  try
  {
    for( int dual = 0; dual < 3; dual++ )
    {
      auto D = dual == 2 ? calculateIntersectionHomology( K, X, p ) : calculateIntersectionHomology( K, X, p, dual == 1 );
      J ds = J::arr();
      for( auto&& d : D )
        ds.push( diagramTo( d, SCALE ) );
      dgms.push( ds );
    }
  }
  catch( std::runtime_error& ) { r.set( "error", J( "runtime_error" ) ); }
  r.set( "dgms", dgms );
  return r;
}

template <class S> J dispatch( const J& c )
{
  auto k = c["k"].s;
  if( k == "partition" ) return partitions<S>( c );
  if( k == "intersection" )
  {
    auto v = c["p"].as<int>();
    if( c["gm"].b ) return intersection<S>( c, PerversityGM( v.begin(), v.end() ), 2 );
    return intersection<S>( c, Perversity( v.begin(), v.end() ), 1 );
  }
  return constructions<S>( c );
}

J handle( const J& c )
{
  if( c["k"].s == "sequence" ) return sequences( c );
  if( c["t"].s == "d" ) return dispatch< Simplex<double, unsigned> >( c );
  if( c["t"].s == "s" ) return dispatch< Simplex<double, unsigned short> >( c );
  return dispatch< Simplex<float, unsigned> >( c );
}

int main( int argc, char** argv )
{
  return run( argc, argv, handle );
}
