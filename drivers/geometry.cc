// Cech complexes and beta-skeletons.
#include "common.hh"

#include <aleph/containers/PointCloud.hh>

#include <aleph/geometry/BetaSkeleton.hh>
#include <aleph/geometry/CechComplex.hh>

#include <aleph/geometry/distances/Euclidean.hh>

using namespace aleph;
using namespace aleph::geometry;
using namespace vh;

template <class Complex> J squaredWeights( const Complex& K, double factor, double u )
{
  J r = J::arr();
  for( auto&& s : K )
  {
    J x = J::obj();
    double w = double( s.data() ) / u;
    x.set( "s", vertices( s ) );
    // The factor keeps three decimals; everything is rounded to an integer.
    x.set( "w", factor == 1.0 ? num( w * w, 1.0, digits<typename Complex::ValueType::DataType>() ) : num( std::round( w * w * factor ) ) );
    r.push( x );
  }
  return r;
}

template <class T> J geometry_( const J& c )
{
  auto&& pts = c["pts"];
  containers::PointCloud<T> pc( pts.size(), pts[0].size() );
  for( std::size_t i = 0; i < pts.size(); i++ )
  {
    std::vector<T> p;
    for( auto&& x : pts[i].a )
      p.push_back( enc<T>( x.i ) );
    pc.set( i, p.begin(), p.end() );
  }

  J r = J::obj();
  double u = unit<T>().factor;
  if( c["k"].s == "cech" )
    r.set( "K", squaredWeights( buildCechComplex( pc, static_cast<T>( double( c["R"].i ) / 2.0 * u * ( 1.0 + double( c["hair"].i ) * 1e-9 ) ) ), 1000.0, u ) );
  else
    r.set( "K", squaredWeights( buildBetaSkeletonNaive< distances::Euclidean<T> >( pc, double( c["b"].i ) / 2.0 * ( 1.0 + double( c["hair"].i ) * 1e-9 ) ), 1.0, u ) );
  return r;
}

J handle( const J& c )
{
  return c["t"].s == "d" ? geometry_<double>( c ) : geometry_<float>( c );
}

int main( int argc, char** argv )
{
  return run( argc, argv, handle );
}
