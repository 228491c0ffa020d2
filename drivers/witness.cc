// Dowker complexes, witness complexes, landmarks.
#include "common.hh"

#include <aleph/containers/PointCloud.hh>

#include <aleph/geometry/DowkerComplex.hh>
#include <aleph/geometry/WitnessComplex.hh>

#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Hamming.hh>
#include <aleph/geometry/distances/Manhattan.hh>

using namespace aleph;
using namespace aleph::geometry;
using namespace vh;

template <class V, class D> J dowker( const J& c )
{
  double scale = double( c["scale"].i );
  using Matrix = std::vector< std::vector<double> >;
  Matrix W;
  for( auto&& row : c["W"].a )
  {
    W.push_back( {} );
    for( auto&& x : row.a )
      W.back().push_back( double( enc<D>( x.i, scale ) ) );
  }

  D R = static_cast<D>( enc<D>( c["R"].i, scale ) * ( 1.0 + double( c["hair"].i ) * 1e-9 ) );
  unsigned d = static_cast<unsigned>( c["d"].i );

  J r = J::obj();
  auto pairs = admissiblePairs( W, R );
  J ps = J::arr();
  for( auto&& p : pairs )
  {
    J x = J::arr();
    x.push( J( static_cast<long long>( p.p ) ) ); x.push( J( static_cast<long long>( p.q ) ) ); x.push( dec( static_cast<D>( p.w ), scale ) );
    ps.push( x );
  }
  r.set( "pairs", ps );
  auto both = buildDowkerSinkSourceComplexes<V, D>( pairs, d );
  r.set( "source", complexTo( both.first, scale ) );
  r.set( "sink", complexTo( both.second, scale ) );
  r.set( "only", complexTo( buildDowkerSourceCompplex<Matrix, V, D>( W, R, d ), scale ) );
  return r;
}

template <class T> containers::PointCloud<T> cloud( const J& pts )
{
  containers::PointCloud<T> pc( pts.size(), pts.size() ? pts[0].size() : 1 );
  for( std::size_t i = 0; i < pts.size(); i++ )
  {
    std::vector<T> p;
    for( auto&& x : pts[i].a )
      p.push_back( enc<T>( x.i ) );
    pc.set( i, p.begin(), p.end() );
  }
  return pc;
}

template <class T, class Distance> J witness( const J& c, bool squared )
{
  auto pc  = cloud<T>( c["pts"] );
  double u = c["metric"].s == "hamming" ? 1.0 : unit<T>().factor;
  J r = J::obj();
  if( c["k"].s == "witness" )
  {
    auto L = c["L"].as<unsigned>();
    auto K = buildWitnessComplex<Distance>( pc, L.begin(), L.end(),
                                            static_cast<unsigned>( c["d"].i ),
                                            static_cast<unsigned>( c["nu"].i ),
                                            static_cast<T>( double( c["R"].i ) * u * ( 1.0 + double( c["hair"].i ) * 1e-9 ) ) );
    J q = J::arr();
    for( auto&& s : K )
    {
      J x = J::obj();
      x.set( "s", vertices( s ) );
      double w = double( s.data() ) / u;
      x.set( "w", num( squared ? w * w : w, 1.0, digits<T>() ) );
      q.push( x );
    }
    r.set( "K", q );
  }
  else
  {
    std::vector<std::size_t> a, b;
    auto n = static_cast<std::size_t>( c["n"].i );
    generateMaxMinLandmarks<Distance>( pc, n, std::back_inserter( a ) );
    generateRandomLandmarks( pc.size(), n, std::back_inserter( b ) );
    J ja = J::arr(), jb = J::arr();
    for( auto&& x : a ) ja.push( J( static_cast<long long>( x ) ) );
    for( auto&& x : b ) jb.push( J( static_cast<long long>( x ) ) );
    r.set( "maxmin", ja ).set( "random", jb );
    bool refused = false;
    try { std::vector<std::size_t> z; generateMaxMinLandmarks<Distance>( pc, pc.size() + 1, std::back_inserter( z ) ); }
    catch( std::out_of_range& ) { refused = true; }
    r.set( "refused", J( refused ) );
  }
  return r;
}

template <class T> J metrics( const J& c )
{
  std::string m = c["metric"].s;
  if( m == "euclidean" ) return witness<T, distances::Euclidean<T> >( c, true );
  if( m == "manhattan" ) return witness<T, distances::Manhattan<T> >( c, false );
  return witness<T, distances::Hamming<T> >( c, false );
}

J handle( const J& c )
{
  if( c["k"].s == "dowker" )
    return c["t"].s == "d" ? dowker<unsigned, double>( c ) : dowker<unsigned short, float>( c );
  return c["t"].s == "d" ? metrics<double>( c ) : metrics<float>( c );
}

int main( int argc, char** argv )
{
  return run( argc, argv, handle );
}
