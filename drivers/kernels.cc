// Kernels between persistence diagrams, kernel density estimates. Coordinates
// are multiples of a unit that turns Gaussians into powers of two.
#include "harness.hh"

#include <cmath>
#include <functional>
#include <list>
#include <vector>

#include <aleph/math/KernelDensityEstimator.hh>
#include <aleph/persistenceDiagrams/kernels/KernelEmbedding.hh>
#include <aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh>

using namespace vh;

const double UNIT = 1048576.0;
const double LN2  = std::log( 2.0 );

template <class T> aleph::PersistenceDiagram<T> diagram( const J& a, double unit )
{
  aleph::PersistenceDiagram<T> D;
  for( auto&& p : a.a )
    D.add( T( p.a[0].i * unit ), T( p.a[1].i * unit ) );
  return D;
}

J multi( const J& c )
{
  double sigma = c["sigma"].i == 0 ? M_PI : double( c["sigma"].i );
  double unit  = std::sqrt( 8 * sigma * LN2 );
  auto D       = diagram<double>( c["D"], unit );
  auto E       = diagram<double>( c["E"], unit );
  return J::obj().set( "kernel", near( aleph::multiScaleKernel( D, E, sigma ) * 8 * M_PI * sigma, UNIT ) )
                 .set( "feature", near( aleph::multiScaleFeatureMap( D, sigma ) * 4 * M_PI * sigma, UNIT ) )
                 .set( "metric", near( aleph::multiScalePseudoMetric( D, E, sigma ) * std::sqrt( 8 * M_PI * sigma ), 1000 ) );
}

struct Life
{
  template <class P> double operator()( const P& p ) const
  {
    return double( p.y() ) - double( p.x() );
  }
};

struct Affine
{
  template <class P> double operator()( const P& p, const P& q ) const
  {
    return 1.0 + double( p.x() ) * double( q.x() ) + double( p.y() ) * double( q.y() );
  }
};

template <class T> J linear( const J& c )
{
  auto D     = diagram<T>( c["D"], 1 );
  auto E     = diagram<T>( c["E"], 1 );
  double tau = std::sqrt( double( c["t"].i ) / ( 2 * LN2 ) );
  auto m     = aleph::pseudoMetric( D, E, Life(), Affine() );
  auto g     = aleph::gaussianKernel( D, E, Life(), Affine(), tau );
  return J::obj().set( "kernel", near( aleph::linearKernel( D, E, Life(), Affine() ), 1 ) )
                 .set( "square", near( m * m, 1 ) )
                 .set( "gauss", near( g == 1.0 ? 0.0 : -std::log2( g ), 1000 ) );
}

J standard( const J& c )
{
  auto D       = diagram<double>( c["D"], 1 );
  auto E       = diagram<double>( c["E"], 1 );
  double sigma = std::sqrt( 1 / ( 2 * LN2 ) );
  double tau   = std::sqrt( double( c["t"].i ) / ( 2 * LN2 ) );
  double p     = double( c["p"].i );
  double C     = std::tan( 0.5 ) / std::pow( double( c["life"].i ), p );
  auto g       = aleph::gaussianKernel( D, E, sigma, C, p, tau );
  return J::obj().set( "kernel", near( aleph::linearKernel( D, E, aleph::detail::DefaultWeightFunction( C, p ), aleph::detail::DefaultKernel( sigma ) ), UNIT ) )
                 .set( "gauss", near( g == 1.0 ? 0.0 : -std::log2( g ), UNIT ) );
}

template <class C> C sequence( const J& a, double unit )
{
  C c;
  for( auto&& v : a.a )
    c.push_back( static_cast<typename C::value_type>( double( v.i ) * unit ) );
  return c;
}

template <class T, class C> J density( const J& c )
{
  double h   = double( c["h"].i ) / 2;
  unsigned d = unsigned( c["d"].i );
  auto n     = double( c["x"].a.size() );
  aleph::math::KernelDensityEstimator kde( h, d );
  if( c["k"].s == "epanechnikov" )
  {
    auto x = sequence<C>( c["x"], h / 4 );
    T at   = T( double( c["at"].i ) * h / 4 );
    return J::obj().set( "v", near( kde( x.begin(), x.end(), at, aleph::math::kernels::Epanechnikov() ) * n * std::pow( h, double( d ) ), 64 ) );
  }
  double sigma = double( c["sigma"].i );
  double unit  = h * sigma * std::sqrt( 2 * LN2 );
  auto x       = sequence<C>( c["x"], unit );
  T at         = T( double( c["at"].i ) * unit );
  auto kernel  = c["sigma"].i == 1 ? aleph::math::kernels::Gaussian() : aleph::math::kernels::Gaussian( sigma );
  return J::obj().set( "v", near( kde( x.begin(), x.end(), at, kernel ) * n * std::pow( h, double( d ) ) * std::sqrt( 2 * M_PI ) * sigma, UNIT ) );
}

int main( int argc, char** argv )
{
  return vh::run( argc, argv, [] ( const J& c ) {
    auto k = c["k"].s;
    if( k == "multi" )
      return multi( c );
    if( k == "linear" )
      return c["type"].s == "float" ? linear<float>( c ) : linear<double>( c );
    if( k == "default" )
      return standard( c );
    return c["type"].s == "list" ? density< double, std::list<double> >( c ) : density< double, std::vector<double> >( c );
  } );
}
