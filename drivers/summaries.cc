// Summaries of persistence diagrams: envelopes, entropies, means.
#include "harness.hh"

#include <cmath>
#include <iterator>
#include <vector>

#include <aleph/persistenceDiagrams/Entropy.hh>
#include <aleph/persistenceDiagrams/Envelope.hh>
#include <aleph/persistenceDiagrams/Mean.hh>

using namespace vh;

template <class T> aleph::PersistenceDiagram<T> diagram( const J& a )
{
  aleph::PersistenceDiagram<T> D;
  for( auto&& p : a.a )
    D.add( enc<T>( p.a[0].i ), enc<T>( p.a[1].i ) );
  return D;
}

J point( double x, double y, double scale )
{
  return J::arr().push( near( x, scale ) ).push( near( y, scale ) );
}

template <class T> J envelope( const J& c )
{
  auto D = diagram<T>( c["D"] );
  for( long long i = 0; i < c["unpaired"].i; i++ )
    D.add( enc<T>( i ) );
  aleph::Envelope functor;
  auto f = functor( D );
  std::vector<T> X;
  f.domain( std::back_inserter( X ) );
  J points = J::arr();
  for( auto&& x : X )
    points.push( point( x, f( x ), 1 / unit<T>().factor ) );
  J after = J::arr();
  for( auto&& p : D )
    if( !p.isUnpaired() )
      after.push( point( p.x(), p.y(), 1 / unit<T>().factor ) );
  return J::obj().set( "points", points ).set( "after", after );
}

template <class T> J entropy( const J& c )
{
  auto D = diagram<T>( c["D"] );
  auto k = c["k"].s;
  T h    = k == "entropy" ? aleph::persistentEntropy( D )
         : k == "area" ? aleph::nearestNeighbourAreaEntropy( D )
         : aleph::gridEntropy( D, unsigned( c["n"].i ) );
  return J::obj().set( "h", near( h, 1e5 ) );
}

template <class T> J mean( const J& c )
{
  std::vector< aleph::PersistenceDiagram<T> > Ds;
  for( auto&& D : c["Ds"].a )
  {
    Ds.push_back( diagram<T>( D ) );
    Ds.back().setDimension( std::size_t( c["d"].i ) );
  }
  auto M   = aleph::mean( Ds.begin(), Ds.end() );
  J points = J::arr();
  for( auto&& p : M )
    points.push( point( p.x(), p.y(), 1000 / unit<T>().factor ) );
  return J::obj().set( "points", points ).set( "dimension", J( static_cast<long long>( M.dimension() ) ) );
}

int main( int argc, char** argv )
{
  return vh::run( argc, argv, [] ( const J& c ) {
    auto k = c["k"].s;
    if( k == "envelope" )
      return c["t"].s == "float" ? envelope<float>( c ) : envelope<double>( c );
    if( k == "mean" )
      return mean<double>( c );
    return entropy<double>( c );
  } );
}
