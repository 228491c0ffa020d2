// Half-edge meshes: histories of insertions and queries.
#include "common.hh"

#include <aleph/topology/Mesh.hh>

#include <algorithm>
#include <set>

using namespace vh;
using Mesh = aleph::topology::Mesh<double, double>;

template <class C> J list( const C& c )
{
  J r = J::arr();
  for( auto&& x : c )
    r.push( J( static_cast<long long>( x ) ) );
  return r;
}

template <class C> J lists( const C& c )
{
  J r = J::arr();
  for( auto&& x : c )
    r.push( list( x ) );
  return r;
}

J query( const Mesh& M )
{
  J r = J::obj();
  auto vertices = M.vertices();
  J at = J::arr();
  for( auto&& v : vertices )
  {
    std::vector<Mesh::Index> adjacent;
    for( auto&& w : vertices )
    {
      if( M.hasEdge( v, w ) )
        adjacent.push_back( w );
    }
    auto star = M.star( v );
    at.push( J::obj().set( "v", J( static_cast<long long>( v ) ) )
                     .set( "data", dec( M.data( v ) ) )
                     .set( "higher", list( M.getHigherNeighbours( v ) ) )
                     .set( "lower", list( M.getLowerNeighbours( v ) ) )
                     .set( "link", list( M.link( v ) ) )
                     .set( "adjacent", list( adjacent ) )
                     .set( "sv", list( star.vertices() ) )
                     .set( "sf", lists( star.faces() ) ) );
  }
  return r.set( "vertices", list( vertices ) )
          .set( "nv", J( static_cast<long long>( M.numVertices() ) ) )
          .set( "faces", lists( M.faces() ) )
          .set( "nf", J( static_cast<long long>( M.numFaces() ) ) )
          .set( "nc", J( static_cast<long long>( M.numConnectedComponents() ) ) )
          .set( "at", at );
}

J history( const J& c )
{
  Mesh M;
  J out = J::arr();
  for( auto&& op : c["ops"].a )
  {
    J r = J::obj();
    if( op["op"].s == "vertex" )
    {
      auto before = M.vertices();
      bool exc = false;
      try
      {
        if( op["id"].i < 0 )
          M.addVertex( 0, 0, 0, enc<double>( op["x"].i ) );
        else
          M.addVertex( 0, 0, 0, enc<double>( op["x"].i ), Mesh::Index( op["id"].i ) );
      }
      catch( std::runtime_error& )
      {
        exc = true;
      }
      auto after = M.vertices();
      std::vector<Mesh::Index> added;
      for( auto&& v : after )
      {
        if( std::find( before.begin(), before.end(), v ) == before.end() )
          added.push_back( v );
      }
      r.set( "exc", J( exc ) ).set( "new", list( added ) );
    }
    else if( op["op"].s == "face" )
    {
      std::vector<unsigned> vs;
      for( auto&& x : op["vs"].a )
        vs.push_back( unsigned( x.i ) );
      M.addFace( vs.begin(), vs.end() );
    }
    else
      r = query( M );
    out.push( r );
  }
  return out;
}

int main( int argc, char** argv )
{
  return vh::run( argc, argv, [] ( const J& c ) { return history( c ); } );
}
