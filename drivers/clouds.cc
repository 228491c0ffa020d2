// Point clouds: histories of calls, and descriptors of their points.
#include "harness.hh"

#include <vector>

#include <aleph/containers/PointCloud.hh>
#include <aleph/containers/DataDescriptors.hh>

#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Manhattan.hh>

#include <cmath>
#include <list>

using namespace vh;

template <class C> J list( const C& c )
{
  J r = J::arr();
  for( auto&& x : c )
    r.push( x == 0 ? J( 0LL ) : dec( x ) );
  return r;
}

template <class T> J call( std::vector< aleph::containers::PointCloud<T> >& S, const J& op )
{
  using Cloud   = aleph::containers::PointCloud<T>;
  const auto& o = op["op"].s;
  auto via      = op.has( "via" ) ? op["via"].i : 0;
  auto reg      = [&] ( const char* k ) -> Cloud& { return S.at( std::size_t( op[k].i - 1 ) ); };

  J r      = J::obj();
  bool exc = false;

  try
  {
    if( o == "new" )
      reg( "r" ) = Cloud( std::size_t( op["n"].i ), std::size_t( op["d"].i ) );
    else if( o == "set" )
    {
      std::vector<T> x;
      for( auto&& v : op["x"].a )
        x.push_back( v.i == 0 ? T() : enc<T>( v.i ) );        // clouds are zero initially
      std::size_t i = std::size_t( op["i"].i );
      if( via == 1 )
      {
        std::list<T> l( x.begin(), x.end() );
        reg( "r" ).set( i, l.begin(), l.end() );
      }
      else if( via == 2 && x.size() == 2 )
        reg( "r" ).set( i, { x[0], x[1] } );
      else
        reg( "r" ).set( i, x.begin(), x.end() );
    }
    else if( o == "get" )
    {
      std::size_t i = std::size_t( op["i"].i );
      std::vector<T> x;
      if( via == 1 )
        reg( "r" ).get( i, std::back_inserter( x ) );
      else
        x = reg( "r" )[i];
      r.set( "x", list( x ) );
    }
    else if( o == "all" )
    {
      auto& P = reg( "r" );
      J pts   = J::arr();
      for( std::size_t i = 0; i < P.size(); i++ )
      {
        if( via == 1 )
          pts.push( list( std::vector<T>( P.data() + i * P.dimension(), P.data() + ( i + 1 ) * P.dimension() ) ) );
        else
          pts.push( list( P[i] ) );
      }
      r.set( "n", J( static_cast<long long>( P.size() ) ) ).set( "d", J( static_cast<long long>( P.dimension() ) ) )
       .set( "empty", J( P.empty() ) ).set( "pts", pts );
    }
    else if( o == "copy" )
    {
      Cloud c( reg( "a" ) );
      swap( c, reg( "r" ) );
    }
    else if( o == "assign" )
      reg( "r" ) = reg( "a" );
    else if( o == "move" )
    {
      if( op["r"].i != op["a"].i )
      {
        if( via == 1 )
        {
          Cloud c( std::move( reg( "a" ) ) );
          swap( reg( "r" ), c );
        }
        else
          reg( "r" ) = std::move( reg( "a" ) );
        reg( "a" ) = Cloud();
      }
    }
    else if( o == "swap" )
      swap( reg( "r" ), reg( "a" ) );
    else if( o == "concat" )
      reg( "r" ) = reg( "a" ) + reg( "b" );
    else if( o == "equal" )
      r.set( "eq", J( reg( "a" ) == reg( "b" ) ) );
  }
  catch( std::runtime_error& )
  {
    exc = true;
  }
  return r.set( "exc", J( exc ) );
}

template <class T> J history( const J& c )
{
  std::vector< aleph::containers::PointCloud<T> > S( 3 );
  J out = J::arr();
  for( auto&& op : c["ops"].a )
    out.push( call( S, op ) );
  return out;
}

template <class Distance> J descriptors( const J& c, bool euclidean )
{
  using namespace aleph::containers;
  auto n = c["P"].size();
  PointCloud<double> P( n, std::size_t( c["d"].i ) );
  for( std::size_t i = 0; i < n; i++ )
  {
    std::vector<double> x;
    for( auto&& v : c["P"][i].a )
      x.push_back( enc<double>( v.i ) );
    P.set( i, x.begin(), x.end() );
  }
  unsigned order = unsigned( c["order"].i );
  double u = unit<double>().factor;

  J lens = J::arr(), ecc = J::arr(), dtm = J::arr();
  for( auto&& x : estimateLensDataDepth<Distance>( P ) )
    lens.push( J( static_cast<long long>( x ) ) );
  for( auto&& x : eccentricities<Distance>( P, order ) )
    ecc.push( num( order == 0 ? ( euclidean ? x / u * x / u : x / u ) : std::pow( x / u, double( order ) ) * double( n ), 1.0, 1e-11 ) );
  for( auto&& x : estimateDensityDistanceToMeasure<Distance>( P, unsigned( c["k"].i ) ) )
    dtm.push( euclidean && c["d"].i > 1 ? J( 0LL ) : num( -x / u * double( n ), 1.0, 1e-11 ) );

  J gauss = J::arr(), wide = J::arr();
  auto Q = P;
  for( std::size_t i = 0; i < n; i++ )
  {
    auto x = c["P"][i].as<double>();
    Q.set( i, x.begin(), x.end() );
  }
  for( auto&& x : estimateDensityTruncatedGaussian( Q, double( c["k"].i ) ) )
    wide.push( near( x * double( n ), 1000000 ) );
  for( std::size_t i = 0; i < n; i++ )
  {
    std::vector<double> x;
    for( auto&& v : c["P"][i].a )
      x.push_back( double( v.i ) / 4 );
    Q.set( i, x.begin(), x.end() );
  }
  for( auto&& x : estimateDensityTruncatedGaussian( Q, 1.0 ) )
    gauss.push( near( x * double( n ), 1000000 ) );

  return J::obj().set( "lens", lens ).set( "ecc", ecc ).set( "dtm", dtm ).set( "gauss", gauss ).set( "wide", wide );
}

int main( int argc, char** argv )
{
  using namespace aleph::geometry::distances;
  return vh::run( argc, argv, [] ( const J& c ) {
    if( c.has( "P" ) )
      return c["m"].s == "euclidean" ? descriptors< Euclidean<double> >( c, true ) : descriptors< Manhattan<double> >( c, false );
    return c["t"].s == "f" ? history<float>( c ) : history<double>( c );
  } );
}
