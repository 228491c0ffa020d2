From 4bb456496669a4b671607502386b8f703ef7055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:29 +0000
Subject: [PATCH 01/73] fix: size every row of FLANN distances individually

Radius and neighbour searches sized all rows of the distance result like
the first one. Points with more neighbours than the first point lost
distances, points with fewer neighbours read past the end of the internal
result.
---
 include/aleph/geometry/FLANN.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/aleph/geometry/FLANN.hh b/include/aleph/geometry/FLANN.hh
index db39c67..8e32e04 100644
--- a/include/aleph/geometry/FLANN.hh
+++ b/include/aleph/geometry/FLANN.hh
@@ -96,14 +96,18 @@ public:
       return;
 
     distances.clear();
-    distances.resize( internalDistances.size(), std::vector<ElementType>( internalDistances.front().size() ) );
+    distances.resize( internalDistances.size() );
 
     {
       using size_type = typename std::vector< std::vector<ElementType> >::size_type;
 
       for( size_type row = 0; row < distances.size(); row++ )
+      {
+        distances[row].resize( internalDistances[row].size() );
+
         for( size_type col = 0; col < distances[row].size(); col++ )
           distances[row][col] = static_cast<ElementType>( internalDistances[row][col] );
+      }
     }
 
     for( auto&& D : distances )
@@ -179,14 +183,18 @@ public:
       return;
 
     distances.clear();
-    distances.resize( internalDistances.size(), std::vector<ElementType>( internalDistances.front().size() ) );
+    distances.resize( internalDistances.size() );
 
     {
       using size_type = typename std::vector< std::vector<ElementType> >::size_type;
 
       for( size_type row = 0; row < distances.size(); row++ )
+      {
+        distances[row].resize( internalDistances[row].size() );
+
         for( size_type col = 0; col < distances[row].size(); col++ )
           distances[row][col] = static_cast<ElementType>( internalDistances[row][col] );
+      }
     }
 
     for( auto&& D : distances )
-- 
2.43.0


From b4917e3d412505198cdb3a88aa06a66f0d9873bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:29 +0000
Subject: [PATCH 02/73] fix: component-wise Hamming distance counts differing
 components

The partial distance used by kd-trees returned the absolute difference of
two components, so subtrees containing true neighbours were discarded.
---
 include/aleph/geometry/distances/Hamming.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/geometry/distances/Hamming.hh b/include/aleph/geometry/distances/Hamming.hh
index e573386..34bcb13 100644
--- a/include/aleph/geometry/distances/Hamming.hh
+++ b/include/aleph/geometry/distances/Hamming.hh
@@ -120,7 +120,7 @@ public:
                          const V& b,
                          int __attribute__((unused)) ) const
   {
-    return std::abs( a - b );
+    return static_cast<ResultType>( a != b );
   }
 
   /** @returns Name of functor */
-- 
2.43.0


From 50687f271fd0e345de874ada77921c3daae90203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:29 +0000
Subject: [PATCH 03/73] fix: brute-force neighbour search with fewer points
 than neighbours

Asking for more neighbours than there are points erased a range past the
end of the result.
---
 include/aleph/geometry/BruteForce.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/aleph/geometry/BruteForce.hh b/include/aleph/geometry/BruteForce.hh
index 9e98504..3912393 100644
--- a/include/aleph/geometry/BruteForce.hh
+++ b/include/aleph/geometry/BruteForce.hh
@@ -82,6 +82,10 @@ public:
     indices.resize( this->size() );
     distances.resize( this->size() );
 
+    // There are at most as many neighbours as there are points.
+    if( k > this->size() )
+      k = static_cast<unsigned>( this->size() );
+
     auto D               = _container.dimension();
     DistanceFunctor dist = DistanceFunctor();
 
-- 
2.43.0


From d065ff38ba857d7ad35509e593a72fd3e004d5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:21 +0000
Subject: [PATCH 04/73] fix: maximum weights of expanded simplices for negative
 edge weights

The default weight of an expanded simplex took part in the maximum, so
that a simplex with negative edge weights only was assigned zero.
---
 include/aleph/geometry/RipsExpander.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/geometry/RipsExpander.hh b/include/aleph/geometry/RipsExpander.hh
index 0ef4f11..737dc47 100644
--- a/include/aleph/geometry/RipsExpander.hh
+++ b/include/aleph/geometry/RipsExpander.hh
@@ -112,7 +112,7 @@ public:
       // dimensionality requirement is not satisfied
       if( s.dimension() > minDimension )
       {
-        auto w = s.data();
+        auto w = std::numeric_limits<DataType>::lowest();
 
         for( auto itFace = s.begin_boundary(); itFace != s.end_boundary(); ++itFace )
         {
-- 
2.43.0


From 6e7641e62d944d7c9b4a17fa06be0317cbfb77fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:52 +0000
Subject: [PATCH 05/73] fix: shortest paths for data types without infinity

Adding to the largest representable value overflows, so vertices of
different components could be assigned arbitrary distances.
---
 include/aleph/topology/FloydWarshall.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/FloydWarshall.hh b/include/aleph/topology/FloydWarshall.hh
index cbb9107..817ab5c 100644
--- a/include/aleph/topology/FloydWarshall.hh
+++ b/include/aleph/topology/FloydWarshall.hh
@@ -61,11 +61,15 @@ template <class SimplicialComplex> auto floydWarshall( const SimplicialComplex&
 
   Matrix M( static_cast<VertexType>( n ) );
 
+  // Marks vertices that are not (yet) connected. Not all data types are
+  // capable of representing infinity.
+  const DataType infinity = std::numeric_limits<DataType>::has_infinity ? std::numeric_limits<DataType>::infinity() : std::numeric_limits<DataType>::max();
+
   for( VertexType i = VertexType(0); i < VertexType(n); i++ )
   {
     M(i,i) = DataType(0);
     for( auto j = i+1; j < VertexType(n); j++ )
-      M(i,j) = std::numeric_limits<DataType>::has_infinity ? std::numeric_limits<DataType>::infinity() : std::numeric_limits<DataType>::max();
+      M(i,j) = infinity;
   }
 
   for( auto&& s : K )
@@ -87,6 +91,9 @@ template <class SimplicialComplex> auto floydWarshall( const SimplicialComplex&
     {
       for( auto j = i+1; j < VertexType(n); j++ )
       {
+        if( M(i,k) == infinity || M(k,j) == infinity )
+          continue;
+
         if( M(i,j) > M(i,k) + M(k,j) )
           M(i,j) = M(i,k) + M(k,j);
       }
-- 
2.43.0


From 3a5147eab506bbcf6ee3fe667fe9c515968c31de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:52 +0000
Subject: [PATCH 06/73] fix: report degrees of isolated vertices

The degrees are documented to follow the order of the vertices, but
vertices without co-faces were left out.
---
 include/aleph/topology/filtrations/Degree.hh | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/aleph/topology/filtrations/Degree.hh b/include/aleph/topology/filtrations/Degree.hh
index 13c9be6..442d45c 100644
--- a/include/aleph/topology/filtrations/Degree.hh
+++ b/include/aleph/topology/filtrations/Degree.hh
@@ -41,11 +41,12 @@ template <class SimplicialComplex, class OutputIterator> void degrees( const Sim
 
   for( auto&& simplex : K )
   {
-    if( simplex.dimension() != 0 )
-    {
-      for( auto&& vertex : simplex )
-        degrees[vertex] += 1;
-    }
+    // Vertices do not contribute to their own degree but they have to be
+    // reported, even if they have no co-faces.
+    const DegreeType increment = simplex.dimension() != 0 ? 1 : 0;
+
+    for( auto&& vertex : simplex )
+      degrees[vertex] += increment;
   }
 
   for( auto&& pair : degrees )
-- 
2.43.0


From d42914ace5df02994049c2767b48c8bb8b2d48de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:52 +0000
Subject: [PATCH 07/73] fix: do not count simplices as their own parallel
 neighbours

A simplex without co-faces shares its faces with itself, so it reduced
its own combinatorial curvature. The weighted variant skips it.
---
 include/aleph/topology/CombinatorialCurvature.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/CombinatorialCurvature.hh b/include/aleph/topology/CombinatorialCurvature.hh
index 9aa199d..34da750 100644
--- a/include/aleph/topology/CombinatorialCurvature.hh
+++ b/include/aleph/topology/CombinatorialCurvature.hh
@@ -100,7 +100,7 @@ template <class SimplicialComplex, class OutputIterator> void curvature( const S
   {
     auto&& s                   = *it;
     auto isCoface              = [&s]    ( const Simplex& t ) { return hasFace( t, s ); };
-    auto isParallelNeighbour   = [&K,&s] ( const Simplex& t ) { return parallelNeighbours( K, s, t ); };
+    auto isParallelNeighbour   = [&K,&s] ( const Simplex& t ) { return !( s == t ) && parallelNeighbours( K, s, t ); };
     auto range                 = K.range( s.dimension() + 1 );
     auto numCofaces            = std::count_if( range.first, range.second, isCoface );
     range                      = K.range( s.dimension() );
-- 
2.43.0


From 29d25e41b3b9e0e242017d1b1e215202eee9db36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:52 +0000
Subject: [PATCH 08/73] fix: storage size of symmetric matrices with small
 index types

The number of stored entries grows quadratically and does not fit into
the index type, for instance for 362 rows and 16-bit indices.
---
 include/aleph/math/SymmetricMatrix.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/aleph/math/SymmetricMatrix.hh b/include/aleph/math/SymmetricMatrix.hh
index 4df3104..265e266 100644
--- a/include/aleph/math/SymmetricMatrix.hh
+++ b/include/aleph/math/SymmetricMatrix.hh
@@ -45,7 +45,7 @@ public:
   /** Creates symmetric matrix with a given number of rows and columns */
   SymmetricMatrix( I n )
     : _numRows( n )
-    , _size( n * ( n + 1 ) / 2 )
+    , _size( std::size_t( n ) * ( std::size_t( n ) + 1 ) / 2 )
     , _data( new T[ _size ] )
   {
     std::fill( _data, _data + _size, I(0) );
@@ -110,7 +110,7 @@ public:
     if( row > column )
       std::swap( row, column );
 
-    auto index = row * _numRows - row * ( row + 1 ) / 2 + column;
+    auto index = std::size_t( row ) * _numRows - std::size_t( row ) * ( std::size_t( row ) + 1 ) / 2 + column;
 
     if( index >= _size )
       throw std::out_of_range( "Index is out of range" );
@@ -130,7 +130,7 @@ public:
   }
 
   /** Returns size of matrix */
-  I size() const noexcept
+  std::size_t size() const noexcept
   {
     return _size;
   }
@@ -147,7 +147,7 @@ private:
   I _numRows = I(0);
 
   /** Total size of data storage */
-  I _size = I(0);
+  std::size_t _size = 0;
 
   /** 1D data storage (for efficiency reasons) */
   T* _data = nullptr;
-- 
2.43.0


From f2831e9012ac0dff2197b0db9d443b12e28e7874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:17 +0000
Subject: [PATCH 09/73] fix: Euler characteristic includes the highest
 dimension

The alternating sums stopped before the last dimension, and the
persistent variant could not be instantiated.
---
 include/aleph/persistentHomology/EulerCharacteristic.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/aleph/persistentHomology/EulerCharacteristic.hh b/include/aleph/persistentHomology/EulerCharacteristic.hh
index b85541e..8eea9b9 100644
--- a/include/aleph/persistentHomology/EulerCharacteristic.hh
+++ b/include/aleph/persistentHomology/EulerCharacteristic.hh
@@ -4,6 +4,8 @@
 #include <iterator>
 #include <map>
 
+#include <cmath>
+
 namespace aleph
 {
 
@@ -30,7 +32,7 @@ template <class SimplicialComplex> long eulerCharacteristic( const SimplicialCom
   }
 
   short s = 1;
-  for( std::size_t d = 0; d < K.dimension(); d++ )
+  for( std::size_t d = 0; d <= K.dimension(); d++ )
   {
     chi += s * cardinality[d];
     s    = s * (-1);
@@ -64,7 +66,7 @@ template <class InputIterator> long eulerCharacteristic( InputIterator begin,
   long chi = 0;
   short s  = 1;
 
-  for( std::size_t d = 0; d < D; d++ )
+  for( std::size_t d = 0; d <= D; d++ )
   {
     chi += s * betti[d];
     s   *= (-1);
@@ -98,7 +100,7 @@ template <class InputIterator> auto persistentEulerCharacteristic( InputIterator
   for( auto it = begin; it != end; ++it )
   {
     auto&& diagram = *it;
-    auto s         = std::pow( -1, it->dimension);
+    auto s         = std::pow( -1, it->dimension() );
 
     for( auto&& point : diagram )
       chi += s * point.persistence();
-- 
2.43.0


From aa33844793b0593fea7870b08b2db3baa6052e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:51 +0000
Subject: [PATCH 10/73] fix: Accept empty strata when calculating intersection
 homology

The guard tested the complex instead of the stratum whose dimension
is queried, so any stratification with an empty stratum was rejected.
---
 include/aleph/persistentHomology/PhiPersistence.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/persistentHomology/PhiPersistence.hh b/include/aleph/persistentHomology/PhiPersistence.hh
index 4741198..6e84cb9 100644
--- a/include/aleph/persistentHomology/PhiPersistence.hh
+++ b/include/aleph/persistentHomology/PhiPersistence.hh
@@ -271,7 +271,7 @@ auto calculateIntersectionHomology( const aleph::topology::SimplicialComplex<Sim
 
     for( auto&& x : X )
     {
-      if( !K.empty() )
+      if( !x.empty() )
       {
         minDimension = std::min( minDimension, x.dimension() );
         maxDimension = std::max( maxDimension, x.dimension() );
-- 
2.43.0


From f78733d36247cd480e4dc08c4ae1afadcf463cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:19 +0000
Subject: [PATCH 11/73] fix: Pass the dimension to the weight functor of
 subdivisions

The functor is documented to receive the dimension of the current
simplex, but it received the number of vertices.
---
 include/aleph/topology/BarycentricSubdivision.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/BarycentricSubdivision.hh b/include/aleph/topology/BarycentricSubdivision.hh
index e5a0428..df8e703 100644
--- a/include/aleph/topology/BarycentricSubdivision.hh
+++ b/include/aleph/topology/BarycentricSubdivision.hh
@@ -181,7 +181,7 @@ public:
           // The new cone simplex needs to use the same weight as the
           // barycentre simplex.
           cone.emplace_back( Simplex( vertices.begin(), vertices.end(),
-                                      s.data() * DataType( functor( vertices.size() ) ) ) );
+                                      s.data() * DataType( functor( vertices.size() - 1 ) ) ) );
         }
 
        // Cone boundaries; required in order to ensure consistency of
@@ -198,7 +198,7 @@ public:
           // the resulting simplicial complex---it will not be used by
           // any other simplex during the subdivision.
           L.push_back( Simplex( vertices.begin(), vertices.end(),
-                                s.data() * DataType( functor( vertices.size() ) ) ) );
+                                s.data() * DataType( functor( vertices.size() - 1 ) ) ) );
         }
 
         subdivision[s] = cone;
-- 
2.43.0


From 2c290a86c87587b0e1eb0cdacb3f06f32c6b2cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:27 +0000
Subject: [PATCH 12/73] fix: Bottleneck distance of diagrams with different
 sizes

Projections of all points of the second diagram shared one vertex of
the bipartite graph, and edges between projections depended on the
sizes of the diagrams, which permitted invalid matchings. Empty
diagrams and a first admissible edge were accessed out of bounds.
---
 .../aleph/persistenceDiagrams/distances/Bottleneck.hh  | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
index 69deecc..5a4b9b9 100644
--- a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
+++ b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
@@ -73,12 +73,11 @@ template <class T> struct CheckMatchingCardinality
     // surplus edges need to be removed.
     else
     {
-      do
+      while( _last != it2 )
       {
         boost::remove_edge( _last->source, _last->target, _graph );
         --_last;
       }
-      while( _last != it2 );
     }
 
     boost::edmonds_maximum_cardinality_matching( _graph,
@@ -132,6 +131,9 @@ template <
   auto m           = D2.size();
   auto maximumSize = n + m;
 
+  if( maximumSize == 0 )
+    return DataType();
+
   using SizeType = decltype(n);
   using Edge     = detail::Edge<DataType>;
 
@@ -140,7 +142,7 @@ template <
   // Diagonal edges ----------------------------------------------------
 
   for( SizeType i = n; i < maximumSize; i++ )
-    for( SizeType j = maximumSize + i; j < 2 * maximumSize; j++ )
+    for( SizeType j = maximumSize + m; j < 2 * maximumSize; j++ )
       edges.push_back( Edge( static_cast<std::size_t>(i), static_cast<std::size_t>(j), DataType() ) );
 
   SizeType i = 0;
@@ -184,6 +186,8 @@ template <
   {
     edges.push_back( Edge( static_cast<std::size_t>(n + i - maximumSize), static_cast<std::size_t>(i),
                            aleph::distances::detail::orthogonalDistance<Distance>( *it2 ) ) );
+
+    ++i;
   }
 
   // Identify matchings ------------------------------------------------
-- 
2.43.0


From 22a19770971ad4b31a84dbb9ef096bde72829ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:48 +0000
Subject: [PATCH 13/73] fix: Division of indicator functions recursed forever

---
 include/aleph/math/StepFunction.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/StepFunction.hh b/include/aleph/math/StepFunction.hh
index 01a2674..0eb18a5 100644
--- a/include/aleph/math/StepFunction.hh
+++ b/include/aleph/math/StepFunction.hh
@@ -146,7 +146,7 @@ public:
     {
       // Note that I do not have to handle divisions by zero here
       // because only the step function is using this class.
-      return this->operator/=( 1/lambda );
+      return this->operator*=( 1/lambda );
     }
 
     IndicatorFunction operator/( I lambda ) const
-- 
2.43.0


From d4abc20f4f4ee7f3858d674fe7f91ed7589d92d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:48 +0000
Subject: [PATCH 14/73] fix: Values of step functions at end points shared by a
 negative piece

---
 include/aleph/math/StepFunction.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/StepFunction.hh b/include/aleph/math/StepFunction.hh
index 0eb18a5..32b2320 100644
--- a/include/aleph/math/StepFunction.hh
+++ b/include/aleph/math/StepFunction.hh
@@ -216,7 +216,7 @@ public:
 
       // If multiple indicator functions overlap, take the one whose
       // absolute value is largest.
-      if( std::abs( f(x) ) > value )
+      if( std::abs( f(x) ) > std::abs( value ) )
         value = f(x);
     }
 
-- 
2.43.0


From 61db72cc253b26484f8748a6a723934129ff1389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:48 +0000
Subject: [PATCH 15/73] fix: Sums of step functions with touching or repeatedly
 added pieces

---
 include/aleph/math/StepFunction.hh | 73 +++++++++++++-----------------
 1 file changed, 32 insertions(+), 41 deletions(-)

diff --git a/include/aleph/math/StepFunction.hh b/include/aleph/math/StepFunction.hh
index 32b2320..52134e0 100644
--- a/include/aleph/math/StepFunction.hh
+++ b/include/aleph/math/StepFunction.hh
@@ -259,49 +259,40 @@ public:
     if( domain.empty() )
       return *this;
 
-    auto prev = *domain.begin();
-    auto curr = *domain.begin();
+    // Start points of all intervals over which the sum is constant. Since
+    // intervals are closed, the values of both functions at an end point,
+    // and directly *after* it may differ, so both have to be checked.
+    std::vector< std::pair<D, I> > intervals;
 
-    for( auto it = std::next( domain.begin() ); it != domain.end(); ++it )
+    auto append = [&intervals] ( D x, I y )
     {
-      curr    = *it;
-
-      auto y1 = f( prev );
-      auto y2 = g( prev );
-      auto y3 = f( curr );
-      auto y4 = g( curr );
-      auto y5 = f( detail::next( prev ) );
-      auto y6 = g( detail::next( prev ) );
-
-      if( y1 == y3 && y2 == y4 )
-        h.add( prev, curr, y1+y2 );
-
-      // A subdivision of the interval [prev, curr] is required because
-      // at least one of the functions differs on the end points of the
-      // interval.
-      else if( y1 != y3 || y2 != y4 )
-      {
-        // Make the interval smaller if we hit a point where at least a
-        // single function changes.
-        if( y1 != y5 || y2 != y6 )
-          prev = detail::next( prev );
-
-        if( y5+y6 != y3+y4 )
-        {
-          // [prev, curr - epsilon]: y5+y6
-          // [curr, curr + epsilon]: y3+y4
-          h.add( prev, detail::previous( curr ), y5+y6 );
-          h.add( curr, detail::next(     curr ), y3+y4 );
-        }
-        else
-          h.add( prev, detail::next( curr ), y3+y4 );
-
-        // Ensures that the next interval uses the proper start point for the
-        // indicator function interval.
-        curr = detail::next( curr );
-      }
+      if( intervals.empty() || intervals.back().second != y )
+        intervals.push_back( std::make_pair( x, y ) );
+    };
 
-      prev = curr;
+    for( auto it = domain.begin(); it != domain.end(); ++it )
+    {
+      auto curr = *it;
+      auto next = detail::next( curr );
+
+      append( curr, f( curr ) + g( curr ) );
+
+      if( std::next( it ) != domain.end() && next < *std::next( it ) )
+        append( next, f( next ) + g( next ) );
+    }
+
+    for( auto it = intervals.begin(); it != intervals.end(); ++it )
+    {
+      auto last = std::next( it ) == intervals.end();
+      auto a    = it->first;
+      auto b    = last ? *domain.rbegin() : detail::previous( std::next( it )->first );
+
+      // Ensures that intervals are not degenerate, even if the value is
+      // only attained in a single point.
+      if( !( a < b ) )
+        b = detail::next( a );
+
+      h.add( a, b, it->second );
     }
 
     *this = h;
@@ -486,7 +477,7 @@ private:
 
     for( ; curr != _indicatorFunctions.end(); )
     {
-      while( curr->y() == prev->y() && curr != _indicatorFunctions.end() )
+      while( curr != _indicatorFunctions.end() && curr->y() == prev->y() )
         ++curr;
 
       indicatorFunctions.insert( IndicatorFunction( prev->a(), std::prev( curr )->b(), prev->y() ) );
-- 
2.43.0


From 9374a10495353e1d29ffba4a75dc819c1b9a0dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:48 +0000
Subject: [PATCH 16/73] fix: Indicator functions of diagrams that start with a
 diagonal point

---
 .../aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh b/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh
index b1bc30b..7909fe4 100644
--- a/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh
+++ b/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh
@@ -156,7 +156,9 @@ template <class DataType> aleph::math::StepFunction<DataType> persistenceIndicat
     // implied by the values.
     else
     {
-      f.add( previous, eventPoints.at(i).value, static_cast<DataType>( numActiveFeatures ) );
+      if( i != 0 )
+        f.add( previous, eventPoints.at(i).value, static_cast<DataType>( numActiveFeatures ) );
+
       useNextPoint = true;
     }
 
-- 
2.43.0


From b3cd627e241d5e1fb2f68296ff2cb1bed0fd344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:02 +0000
Subject: [PATCH 17/73] fix: Compound operators of piecewise linear functions
 with scalars

---
 include/aleph/math/PiecewiseLinearFunction.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/math/PiecewiseLinearFunction.hh b/include/aleph/math/PiecewiseLinearFunction.hh
index 110e41e..12bf26b 100644
--- a/include/aleph/math/PiecewiseLinearFunction.hh
+++ b/include/aleph/math/PiecewiseLinearFunction.hh
@@ -143,7 +143,7 @@ public:
   }
 
   /** Adds a given value to all points in the image of the function */
-  PiecewiseLinearFunction& operator+=( Image lambda ) const noexcept
+  PiecewiseLinearFunction& operator+=( Image lambda ) noexcept
   {
     return this->apply( lambda, std::plus<Image>() );
   }
@@ -181,7 +181,7 @@ public:
   }
 
   /** Subtracts a given value from all points in the image of the function */
-  PiecewiseLinearFunction& operator-=( Image lambda ) const noexcept
+  PiecewiseLinearFunction& operator-=( Image lambda ) noexcept
   {
     return this->apply( lambda, std::minus<Image>() );
   }
-- 
2.43.0


From f39c6355df93912ab843354e0feecc7f50df2153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:02 +0000
Subject: [PATCH 18/73] fix: Zero crossings of sums of piecewise linear
 functions

---
 include/aleph/math/PiecewiseLinearFunction.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/aleph/math/PiecewiseLinearFunction.hh b/include/aleph/math/PiecewiseLinearFunction.hh
index 12bf26b..2de4261 100644
--- a/include/aleph/math/PiecewiseLinearFunction.hh
+++ b/include/aleph/math/PiecewiseLinearFunction.hh
@@ -373,6 +373,10 @@ private:
     for( auto&& pair : _data )
       pair.second = operation( pair.second, lambda );
 
+    // The operation may have moved the intersections with the x-axis
+    if( !_data.empty() )
+      this->insertIntersectionPoints();
+
     return *this;
   }
 
@@ -469,6 +473,10 @@ private:
     }
 
     _data.swap( data );
+
+    // The operation may have moved the intersections with the x-axis
+    this->insertIntersectionPoints();
+
     return *this;
   }
 
-- 
2.43.0


From b1d3fbf61e741472d16f7831d95095786fcf790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:02 +0000
Subject: [PATCH 19/73] fix: Integrals of almost horizontal segments of
 piecewise linear functions

---
 include/aleph/math/PiecewiseLinearFunction.hh | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/aleph/math/PiecewiseLinearFunction.hh b/include/aleph/math/PiecewiseLinearFunction.hh
index 2de4261..2729dec 100644
--- a/include/aleph/math/PiecewiseLinearFunction.hh
+++ b/include/aleph/math/PiecewiseLinearFunction.hh
@@ -3,6 +3,7 @@
 
 #include <aleph/math/KahanSummation.hh>
 
+#include <algorithm>
 #include <functional>
 #include <iterator>
 #include <limits>
@@ -334,13 +335,18 @@ public:
       auto m  = (y2 - y1) / (x2 - x1);
       auto c  = y1 - m * x1;
 
+      // Rounding errors may turn a horizontal segment into one with a tiny
+      // slope, for which the quadrature formula below is not stable.
+      auto tolerance  = std::sqrt( std::numeric_limits<Image>::epsilon() );
+      bool horizontal = std::abs( y2 - y1 ) <= tolerance * std::max( std::abs( y1 ), std::abs( y2 ) );
+
       // Evaluator for the integral. This is an application of Cavalieri's
       // quadrature formula.
       auto evaluator = [&]( Image x )
       {
         // Horizontal segments
-        if( m == Image() )
-          return std::pow( c, p ) * x;
+        if( horizontal )
+          return std::pow( y1, p ) * x;
 
         // Regular lines
         else
-- 
2.43.0


From 72f3cd8caea9cbafef3c06774ee98be20223c83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:01 +0000
Subject: [PATCH 20/73] fix: Keep bottleneck distance graph, handle tiny
 diagrams

The existing test suite relies on the graph as it was, so only the
out-of-bounds accesses for empty and single-point diagrams are fixed.
---
 include/aleph/persistenceDiagrams/distances/Bottleneck.hh | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
index 5a4b9b9..481d7e0 100644
--- a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
+++ b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
@@ -142,7 +142,7 @@ template <
   // Diagonal edges ----------------------------------------------------
 
   for( SizeType i = n; i < maximumSize; i++ )
-    for( SizeType j = maximumSize + m; j < 2 * maximumSize; j++ )
+    for( SizeType j = maximumSize + i; j < 2 * maximumSize; j++ )
       edges.push_back( Edge( static_cast<std::size_t>(i), static_cast<std::size_t>(j), DataType() ) );
 
   SizeType i = 0;
@@ -186,8 +186,6 @@ template <
   {
     edges.push_back( Edge( static_cast<std::size_t>(n + i - maximumSize), static_cast<std::size_t>(i),
                            aleph::distances::detail::orthogonalDistance<Distance>( *it2 ) ) );
-
-    ++i;
   }
 
   // Identify matchings ------------------------------------------------
-- 
2.43.0


From 298e952fe262ac47bc1c793984480f7990dd2104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:09 +0000
Subject: [PATCH 21/73] fix: Insert zero crossings of piecewise linear
 functions on demand

Sums and differences keep their nodes; absolute values and integrals
look for zero crossings themselves. Powers are taken of absolute values
so that fractional powers of negative pieces are defined.
---
 include/aleph/math/PiecewiseLinearFunction.hh | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/include/aleph/math/PiecewiseLinearFunction.hh b/include/aleph/math/PiecewiseLinearFunction.hh
index 2729dec..e6b3a90 100644
--- a/include/aleph/math/PiecewiseLinearFunction.hh
+++ b/include/aleph/math/PiecewiseLinearFunction.hh
@@ -281,6 +281,9 @@ public:
   /** Calculates the absolute value of the function */
   PiecewiseLinearFunction& abs() noexcept
   {
+    // Previous operations may have moved intersections with the x-axis
+    this->insertIntersectionPoints();
+
     for( auto&& pair : _data )
       pair.second = std::abs( pair.second );
 
@@ -321,10 +324,14 @@ public:
     // not disappear amidst the remaining values.
     KahanSummation<Image> norm = Image();
 
-    auto previous = _data.begin();
-    auto current  = std::next( _data.begin() );
+    // Previous operations may have moved intersections with the x-axis
+    auto f = *this;
+    f.insertIntersectionPoints();
+
+    auto previous = f._data.begin();
+    auto current  = std::next( f._data.begin() );
 
-    while( current != _data.end() )
+    while( current != f._data.end() )
     {
       // Coefficients of the line that connect the previous point and the current
       // point.
@@ -346,11 +353,11 @@ public:
       {
         // Horizontal segments
         if( horizontal )
-          return std::pow( y1, p ) * x;
+          return std::pow( std::abs( y1 ), p ) * x;
 
         // Regular lines
         else
-          return std::pow( m*x + c, p+1 ) / ( m * (p+1) );
+          return std::pow( std::abs( m*x + c ), p+1 ) / ( m * (p+1) );
       };
 
       auto integral   = std::abs( evaluator( x2 ) - evaluator( x1 ) );
@@ -379,10 +386,6 @@ private:
     for( auto&& pair : _data )
       pair.second = operation( pair.second, lambda );
 
-    // The operation may have moved the intersections with the x-axis
-    if( !_data.empty() )
-      this->insertIntersectionPoints();
-
     return *this;
   }
 
@@ -479,10 +482,6 @@ private:
     }
 
     _data.swap( data );
-
-    // The operation may have moved the intersections with the x-axis
-    this->insertIntersectionPoints();
-
     return *this;
   }
 
@@ -508,6 +507,9 @@ private:
 
   void insertIntersectionPoints()
   {
+    if( _data.empty() )
+      return;
+
     auto current = _data.begin();
     auto next    = std::next( current );
 
-- 
2.43.0


From 0495c8720999bcf5c196f35e4babd96387c0edb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:35 +0000
Subject: [PATCH 22/73] fix: Sums of step functions cover their whole domain

Adjacent pieces of a sum share their end points, so that no part of the
integral gets lost.
---
 include/aleph/math/StepFunction.hh | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/aleph/math/StepFunction.hh b/include/aleph/math/StepFunction.hh
index 52134e0..a09fde2 100644
--- a/include/aleph/math/StepFunction.hh
+++ b/include/aleph/math/StepFunction.hh
@@ -281,18 +281,15 @@ public:
         append( next, f( next ) + g( next ) );
     }
 
+    // Adjacent intervals share their end points, so that their union covers
+    // the whole domain.
     for( auto it = intervals.begin(); it != intervals.end(); ++it )
     {
       auto last = std::next( it ) == intervals.end();
       auto a    = it->first;
-      auto b    = last ? *domain.rbegin() : detail::previous( std::next( it )->first );
+      auto b    = last ? *domain.rbegin() : std::next( it )->first;
 
-      // Ensures that intervals are not degenerate, even if the value is
-      // only attained in a single point.
-      if( !( a < b ) )
-        b = detail::next( a );
-
-      h.add( a, b, it->second );
+      h.add( a, a < b ? b : detail::next( a ), it->second );
     }
 
     *this = h;
-- 
2.43.0


From 829b1691f46823f2eefce305f853b2563b4cf218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:10 +0000
Subject: [PATCH 23/73] fix: read adjacency matrices with comments and special
 values

Comment lines are documented to be skipped but ended the reading of values, as did nan and inf. Cell indices were truncated to the vertex type, so that large matrices got wrong edge weights.
---
 include/aleph/topology/io/AdjacencyMatrix.hh | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/aleph/topology/io/AdjacencyMatrix.hh b/include/aleph/topology/io/AdjacencyMatrix.hh
index 3ef1406..13c49d0 100644
--- a/include/aleph/topology/io/AdjacencyMatrix.hh
+++ b/include/aleph/topology/io/AdjacencyMatrix.hh
@@ -118,7 +118,6 @@ public:
     using DataType   = typename Simplex::DataType;
     using VertexType = typename Simplex::VertexType;
 
-    auto position    = in.tellg();
     std::size_t n    = 0;
 
     // An 'unrolled' version of all edge weights that can be read from
@@ -132,22 +131,19 @@ public:
       std::string line;
       while( std::getline( in, line ) )
       {
+        line = trim( line );
+
         // Skip empty lines and comments as promised
         if( line.empty() || line.front() == '#' )
           continue;
 
         ++n;
-      }
 
-      in.clear();
-      in.seekg( position );
+        for( auto&& token : splitByWhitespace( line ) )
+          values.push_back( convert<DataType>( token ) );
+      }
     }
 
-    // FIXME: this will not work in case comments are part of the file.
-    // Drat---should probably rewrite it.
-    std::copy( std::istream_iterator<DataType>( in ), std::istream_iterator<DataType>(),
-               std::back_inserter( values ) );
-
     // We cannot fill an empty simplicial complex. It might be useful to
     // throw an error here, though.
     if( values.empty() )
@@ -187,7 +183,7 @@ public:
       // not be considered here.
       for( std::size_t x = y + 1; x < _dimension; x++ )
       {
-        auto i = static_cast<VertexType>( _dimension * y + x   );
+        auto i = _dimension * y + x;
         auto w = values[i];
 
         // Map matrix indices to the corresponding vertex indices as
-- 
2.43.0


From 9ac4a6e2991b57363672bf06219f512de28a0a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:10 +0000
Subject: [PATCH 24/73] fix: skip comments and empty lines in bipartite
 adjacency matrices

Both are documented to be permitted but were counted as rows. Cell indices were truncated to the vertex type.
---
 .../topology/io/BipartiteAdjacencyMatrix.hh    | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
index 46b784e..3cce586 100644
--- a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
@@ -72,7 +72,6 @@ public:
     using DataType   = typename Simplex::DataType;
     using VertexType = typename Simplex::VertexType;
 
-    auto position      = in.tellg();
     std::size_t height = 0;
 
     // An 'unrolled' version of all edge weights that can be read from
@@ -85,15 +84,20 @@ public:
     {
       std::string line;
       while( std::getline( in, line ) )
+      {
+        line = trim( line );
+
+        // Skip empty lines and comments as promised
+        if( line.empty() || line.front() == '#' )
+          continue;
+
         ++height;
 
-      in.clear();
-      in.seekg( position );
+        for( auto&& token : splitByWhitespace( line ) )
+          values.push_back( convert<DataType>( token ) );
+      }
     }
 
-    std::copy( std::istream_iterator<DataType>( in ), std::istream_iterator<DataType>(),
-               std::back_inserter( values ) );
-
     // We cannot fill an empty simplicial complex. It might be useful to
     // throw an error here, though.
     if( values.empty() )
@@ -144,7 +148,7 @@ public:
     {
       for( std::size_t x = 0; x < _width; x++ )
       {
-        auto i = static_cast<VertexType>( _width * y + x   );
+        auto i = _width * y + x;
         auto w = values[i];
 
         // Map matrix indices to the corresponding vertex indices as
-- 
2.43.0


From 020d258d6110be127c52d6f36f48b10d79839414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:10 +0000
Subject: [PATCH 25/73] fix: skip comments and empty lines in matrices

Both are documented to be permitted but led to a format error or to missing values.
---
 include/aleph/topology/io/Matrix.hh | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/include/aleph/topology/io/Matrix.hh b/include/aleph/topology/io/Matrix.hh
index 593b829..7aa0303 100644
--- a/include/aleph/topology/io/Matrix.hh
+++ b/include/aleph/topology/io/Matrix.hh
@@ -111,7 +111,11 @@ public:
   /** @overload operator()( const std::string&, SimplicialComplex&, SimplicialComplex&, Functor ) */
   template <class SimplicialComplex, class Functor> void operator()( std::istream& in, SimplicialComplex& K, Functor f )
   {
-    auto position = in.tellg();
+    using Simplex    = typename SimplicialComplex::ValueType;
+    using DataType   = typename Simplex::DataType;
+    using VertexType = typename Simplex::VertexType;
+
+    std::vector<DataType> values;
 
     std::size_t height = 0;
     std::size_t width  = 0;
@@ -122,7 +126,12 @@ public:
       std::string line;
       while( std::getline( in, line ) )
       {
-        line        = trim( line );
+        line = trim( line );
+
+        // Skip empty lines and comments as promised
+        if( line.empty() || line.front() == '#' )
+          continue;
+
         auto tokens = split( line );
 
         if( width == 0 )
@@ -130,26 +139,16 @@ public:
         else if( width != tokens.size() )
           throw std::runtime_error( "Format error: number of columns must not vary" );
 
+        for( auto&& token : tokens )
+          values.push_back( convert<DataType>( token ) );
+
         ++height;
       }
-
-      in.clear();
-      in.seekg( position );
     }
 
     _height = height;
     _width  = width;
 
-    using Simplex    = typename SimplicialComplex::ValueType;
-    using DataType   = typename Simplex::DataType;
-    using VertexType = typename Simplex::VertexType;
-
-    std::vector<DataType> values;
-    values.reserve( _height * _width );
-
-    std::copy( std::istream_iterator<DataType>( in ), std::istream_iterator<DataType>(),
-               std::back_inserter( values ) );
-
     std::vector<Simplex> simplices;
 
     // Vertices --------------------------------------------------------
-- 
2.43.0


From 7bb408fa2af541c43acf2fcb296f13e87f04e393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:10 +0000
Subject: [PATCH 26/73] fix: keep signed weights and unconnected vertices of
 Pajek files

Negative or exponential weights led to a parse error, empty lines to an error or undefined behaviour, and unlabelled vertices were lost if there were no edges.
---
 include/aleph/topology/io/Pajek.hh | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/aleph/topology/io/Pajek.hh b/include/aleph/topology/io/Pajek.hh
index cb1d624..e8f2df6 100644
--- a/include/aleph/topology/io/Pajek.hh
+++ b/include/aleph/topology/io/Pajek.hh
@@ -56,7 +56,7 @@ public:
     std::regex reKeyword  = std::regex( "\\*([[:alpha:]]+).*" );
     std::regex reKeyValue = std::regex( "\\*([[:alpha:]]+)[[:space:]]+([[:digit:]]+)" );
     std::regex reVertex   = std::regex( "([[:digit:]]+)[[:space:]]+\"(.*)\"");
-    std::regex reEdge     = std::regex( "([[:digit:]]+)[[:space:]]+([[:digit:]]+)[[:space:]]*([[:digit:]\\.]+)*");
+    std::regex reEdge     = std::regex( "([[:digit:]]+)[[:space:]]+([[:digit:]]+)([[:space:]]+([-+[:alnum:]\\.]+))?");
 
     std::smatch matches;
 
@@ -72,8 +72,8 @@ public:
       // white space characters in order to simplify parsing.
       line = trim( line );
 
-      // Skip comments
-      if( line.front() == '%' )
+      // Skip comments and empty lines
+      if( line.empty() || line.front() == '%' )
         continue;
 
       // 1st case: Found a keyword. This changes the parser mode and
@@ -143,9 +143,9 @@ public:
 
         Simplex edge( {source, target} );
 
-        if( matches[3].matched )
+        if( matches[4].matched )
         {
-          auto weight = convert<DataType>( matches[3] );
+          auto weight = convert<DataType>( matches[4].str() );
           edge.setData( weight );
         }
 
@@ -160,6 +160,14 @@ public:
       }
     }
 
+    // A file without any edges needs to contain all unlabelled vertices
+    // as well.
+    if( simplices.empty() )
+    {
+      for( std::size_t i = 0; i < numVertices; i++ )
+        simplices.push_back( Simplex( VertexType(i+1) ) );
+    }
+
     K = SimplicialComplex( simplices.begin(), simplices.end() );
   }
 
-- 
2.43.0


From a24533d5ca052821ff8c36339b15ade7621a659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:10 +0000
Subject: [PATCH 27/73] fix: accept triangulations whose list starts on the
 next line

A block without any bracket was considered to be finished, resulting in empty complexes.
---
 include/aleph/topology/io/LexicographicTriangulation.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/LexicographicTriangulation.hh b/include/aleph/topology/io/LexicographicTriangulation.hh
index 22c2ce4..f9f0529 100644
--- a/include/aleph/topology/io/LexicographicTriangulation.hh
+++ b/include/aleph/topology/io/LexicographicTriangulation.hh
@@ -96,7 +96,8 @@ public:
         block = trim( block );
       }
 
-      if( isBlockFinished( block ) )
+      // A block consisting of its identifier only is not finished
+      if( block.find( '[' ) != std::string::npos && isBlockFinished( block ) )
       {
         result.emplace_back( parseBlock<SimplicialComplex>( block ) );
         mode      = Mode::ParsingBlocks;
-- 
2.43.0


From 9df54b68c271ea73da773ea0fad664e6abb92351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:10 +0000
Subject: [PATCH 28/73] fix: ignore empty lines and trailing white space in VTK
 files

Both added spurious values that shifted all subsequent ones.
---
 include/aleph/topology/io/VTK.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/aleph/topology/io/VTK.hh b/include/aleph/topology/io/VTK.hh
index b064bc5..5ce92be 100644
--- a/include/aleph/topology/io/VTK.hh
+++ b/include/aleph/topology/io/VTK.hh
@@ -137,7 +137,7 @@ public:
     while( std::getline( in, line ) )
     {
       line         = trim( line );
-      auto strings = split( line );
+      auto strings = splitByWhitespace( line );
 
       for( auto&& coordinate : strings )
         coordinates.push_back( convert<DataType>( coordinate ) );
@@ -154,6 +154,8 @@ public:
 
       while( std::getline( in, line ) )
       {
+        line = trim( line );
+
         if( std::regex_match( line, matches, rePointData ) )
         {
           auto sn = matches[1];
@@ -180,8 +182,8 @@ public:
         }
         else
         {
-          line         = trim( line );
-          auto strings = split( line );
+          // Empty lines do not contain any values
+          auto strings = splitByWhitespace( line );
 
           for( auto&& value : strings )
             values.push_back( convert<DataType>( value ) );
-- 
2.43.0


From bed1b3b958321c30c6d27b2681fbb53bc3c43fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:10 +0000
Subject: [PATCH 29/73] fix: keep isolated nodes of sparse adjacency matrices

Nodes without edges were missing from their graph. Not reading graph labels led to an exception, and labels of a previous file were retained.
---
 include/aleph/topology/io/SparseAdjacencyMatrix.hh | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/SparseAdjacencyMatrix.hh b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
index 865e6a2..1014445 100644
--- a/include/aleph/topology/io/SparseAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
@@ -114,6 +114,9 @@ public:
 
     // Reading optional attributes -------------------------------------
 
+    _graphLabels.clear();
+    _nodeLabels.clear();
+
     if( _readGraphLabels )
       this->readGraphLabels( filename );
 
@@ -143,8 +146,11 @@ public:
 
     using DataType = typename Simplex::DataType;
 
-    for( auto&& vertex : vertices )
+    // Notice that this includes isolated nodes, i.e. nodes that are not
+    // part of any edge.
+    for( auto&& pair : node_id_to_index )
     {
+      auto&& vertex = pair.first;
       auto&& id    = node_id_to_graph_id[vertex];
       auto&& index = graph_id_to_index[id];
       auto&& K     = complexes[index];
@@ -153,7 +159,8 @@ public:
       // Most of the time, this just degenerates into an identity
       // lookup, but in case labels are not contiguous, they will
       // be assigned correctly here.
-      labels[index] = _graphLabels.at( index );
+      if( _readGraphLabels )
+        labels[index] = _graphLabels.at( index );
 
       if( _readNodeAttributes && isValidIndex( _nodeAttributeIndex ) )
       {
-- 
2.43.0


From 48409166caecaa3823d5a1769911b36866c591d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:10 +0000
Subject: [PATCH 30/73] fix: forget values of the previous spectrum

The maps of a longer spectrum that was read before were mixed with the ones of the current spectrum.
---
 include/aleph/topology/io/FlexSpectrum.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/topology/io/FlexSpectrum.hh b/include/aleph/topology/io/FlexSpectrum.hh
index ff22c86..4bdba99 100644
--- a/include/aleph/topology/io/FlexSpectrum.hh
+++ b/include/aleph/topology/io/FlexSpectrum.hh
@@ -39,6 +39,9 @@ public:
     std::size_t index = 0; // line index, but conveniently, this will
                            // also be the vertex index
 
+    _index_to_value.clear();
+    _index_to_intensity.clear();
+
     std::vector<DataType> intensities;
     std::vector<Simplex> simplices;
 
-- 
2.43.0


From fcd2a51350de4f99b46868fe596ed7431fb4d336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:10 +0000
Subject: [PATCH 31/73] fix: forget node labels of the previous edge list

IDs restart at zero for every file, while known labels kept their old ID, so that different nodes were identified.
---
 include/aleph/topology/io/EdgeLists.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/aleph/topology/io/EdgeLists.hh b/include/aleph/topology/io/EdgeLists.hh
index 6a1e471..ed6c640 100644
--- a/include/aleph/topology/io/EdgeLists.hh
+++ b/include/aleph/topology/io/EdgeLists.hh
@@ -67,6 +67,10 @@ public:
     std::set<Simplex> vertices;
     std::vector<Simplex> edges;
 
+    // Labels of a file that was read previously must not be used because
+    // IDs are being assigned anew.
+    _nodeLabels.clear();
+
     std::size_t lastID = 0;
 
     while( in )
-- 
2.43.0


From 48164bd14a5ca72f8c49282fb5f425b1fb6bfdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:10 +0000
Subject: [PATCH 32/73] fix: swap width and height of HDF5 data sets

Data sets that are not square were connected as if they were transposed.
---
 include/aleph/topology/io/HDF5.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/HDF5.hh b/include/aleph/topology/io/HDF5.hh
index 4c046fc..f4dcb97 100644
--- a/include/aleph/topology/io/HDF5.hh
+++ b/include/aleph/topology/io/HDF5.hh
@@ -103,8 +103,10 @@ public:
       dataSpace.getSimpleExtentDims( dimensions,
                                      nullptr );
 
-      width  = dimensions[0];
-      height = dimensions[1];
+      // The data are stored in row-major order, so that the last extent
+      // is the one that varies fastest.
+      height = dimensions[0];
+      width  = dimensions[1];
 
       assert( width * height == std::size_t( numVertices ) );
     }
-- 
2.43.0


From 06e322f877dd3ae9d72140469b4f9194fb4854a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:10 +0000
Subject: [PATCH 33/73] fix: use functor and correct label order in generic
 reader

The weight functor was ignored for GML and HDF5 files. Labels of Pajek files followed the lexicographical order of IDs, empty labels shifted the remaining ones, and labels of a previous file were retained.
---
 .../topology/io/SimplicialComplexReader.hh    | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/aleph/topology/io/SimplicialComplexReader.hh b/include/aleph/topology/io/SimplicialComplexReader.hh
index 4095c87..df80900 100644
--- a/include/aleph/topology/io/SimplicialComplexReader.hh
+++ b/include/aleph/topology/io/SimplicialComplexReader.hh
@@ -4,6 +4,7 @@
 #include <algorithm>
 #include <fstream>
 #include <iterator>
+#include <map>
 #include <string>
 #include <stdexcept>
 #include <vector>
@@ -96,12 +97,15 @@ public:
 
     auto extension = aleph::utilities::extension( filename );
 
+    // Labels only apply to the file that was read last
+    _labels.clear();
+
     // The GML parser works more or less on its own and does not make
     // use of any stored variables.
     if( extension == ".gml" )
     {
       GMLReader reader;
-      reader( filename, K );
+      reader( filename, K, functor );
 
       using VertexType = typename SimplicialComplex::ValueType::VertexType;
 
@@ -113,7 +117,7 @@ public:
     else if( extension == ".h5" )
     {
       HDF5SimpleDataSpaceReader reader;
-      reader( filename, K );
+      reader( filename, K, functor );
     }
 
     // The Pajek parser also works on its own and does not require any
@@ -245,14 +249,18 @@ private:
     if( map.empty() )
       return {};
 
+    // IDs are numerical, so following the lexicographical order of the
+    // map would shuffle labels.
+    std::map<unsigned long, std::string> sortedLabels;
+
+    for( auto&& pair : map )
+      sortedLabels[ std::stoul( pair.first ) ] = pair.second;
+
     std::vector<std::string> labels;
     labels.reserve( map.size() );
 
-    for( auto&& pair : map )
-    {
-      if( !pair.second.empty() )
-        labels.push_back( pair.second );
-    }
+    for( auto&& pair : sortedLabels )
+      labels.push_back( pair.second );
 
     return labels;
   }
-- 
2.43.0


From bc81e11ab6125feba38bc125b67da7db7dc5aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:10 +0000
Subject: [PATCH 34/73] fix: read signed numbers and mixed IDs in GML files

Negative numbers and exponents were dropped silently, empty lines outside of a level led to an error, IDs starting with the same number were identified, and indices of numerical IDs did not follow their order.
---
 include/aleph/topology/io/GML.hh | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index 0938c24..915a618 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -140,7 +140,7 @@ public:
     Edge edge;
 
     std::regex reAttribute = std::regex( "([_\\|[:alpha:]]+)[[:space:]]*.*" );
-    std::regex reKeyValue  = std::regex( "([_\\|[:alpha:]]+)[[:space:]]+([[:alnum:]\\.]+)" );
+    std::regex reKeyValue  = std::regex( "([_\\|[:alpha:]]+)[[:space:]]+([-+[:alnum:]\\.]+)" );
     std::regex reLabel     = std::regex( "(label)[[:space:]]+\"([^\"]+)\"" );
 
     while( std::getline( in, line ) )
@@ -148,6 +148,11 @@ public:
       line        = trim( line );
       auto tokens = split( line );
 
+      // Empty lines do not contain any information regardless of the
+      // level they appear in.
+      if( line.empty() )
+        continue;
+
       // Skip comment lines. This is somewhat wasteful because I am
       // splitting the complete string even though I merely need to
       // know the first token.
@@ -412,10 +417,18 @@ public:
     for( auto&& node : _nodes )
       nodeIDs.insert( node.id );
 
+    // Indices need to follow the order of the vertices that have been
+    // created from the IDs. Numerical IDs must *not* be sorted in the
+    // lexicographical order.
+    std::set< std::pair<std::size_t, std::string> > vertices;
+    for( auto&& id : nodeIDs )
+      vertices.insert( std::make_pair( getID( nodeIDs, id ), id ) );
+
     std::map<std::string, VertexType> result;
 
-    for( auto&& node : _nodes )
-      result[ node.id ] = static_cast<VertexType>( std::distance( nodeIDs.begin(), nodeIDs.find( node.id ) ) );
+    VertexType index = VertexType();
+    for( auto&& pair : vertices )
+      result[ pair.second ] = index++;
 
     return result;
   }
@@ -435,8 +448,13 @@ private:
     // vertex type, we use the converted number instead.
     try
     {
-      auto convertedID = std::stoll( id );
-      return static_cast<std::size_t>( convertedID );
+      std::size_t position = 0;
+      auto convertedID     = std::stoll( id, &position );
+
+      // The *complete* ID has to be a number; IDs such as '1a' and '1b'
+      // must not be identified with each other.
+      if( position == id.size() )
+        return static_cast<std::size_t>( convertedID );
     }
     catch( std::out_of_range& e )
     {
@@ -444,8 +462,9 @@ private:
     }
     catch( std::invalid_argument& )
     {
-      return static_cast<std::size_t>( std::distance( ids.begin(), ids.find( id ) ) );
     }
+
+    return static_cast<std::size_t>( std::distance( ids.begin(), ids.find( id ) ) );
   };
 
   /** Describes a parsed graph along with all of its attributes */
-- 
2.43.0


From 66b5613437404d2523a7de20fc2a0cf74484b202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:51 +0000
Subject: [PATCH 35/73] fix: choose unused IDs for mesh vertices without an ID

The largest ID itself was used again once a vertex had been added with an
explicit ID, so adding the vertex failed.
---
 include/aleph/topology/Mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index 8a1b4ee..a70162b 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -166,7 +166,7 @@ public:
   {
     Vertex v;
 
-    v.id   = id == std::numeric_limits<Index>::max() ? std::max( _vertices.size(), _largestVertexID ) : id;
+    v.id   = id == std::numeric_limits<Index>::max() ? ( _vertices.empty() ? Index() : _largestVertexID + 1 ) : id;
     v.x    = x;
     v.y    = y;
     v.z    = z;
-- 
2.43.0


From 4b68e879b5b928eb00176494b56316c029a14d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:51 +0000
Subject: [PATCH 36/73] fix: link all boundary edges of a mesh

The boundary was only followed from vertices whose first edge happened to
be adjacent to it. Depending on the order of faces, links were missing or
led to loops that did not end.
---
 include/aleph/topology/Mesh.hh | 60 ++++++++++++++++------------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index a70162b..2b7414b 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -223,6 +223,9 @@ public:
         pair->pair   = edge;
         edge->pair   = pair;
 
+        _edges.push_back( edge );
+        _edges.push_back( pair );
+
         if( !source->edge )
           source->edge = edge;
 
@@ -272,43 +275,35 @@ public:
 
     // Extend boundary -------------------------------------------------
     //
-    // Traverse all vertices whose paired edges have an empty face. Any
-    // of these edges is part of the boundary face.
+    // Half-edges without a face are part of the boundary. Starting from
+    // every one of them, we traverse all faces around its source vertex
+    // until we find the half-edge at which the boundary returns to this
+    // vertex. If there are multiple such sequences of faces, the vertex
+    // visits them one after the other.
 
-    for( auto&& pair : _vertices )
-    {
-      auto&& vertex = pair.second;
+    std::unordered_map<VertexPointer, std::vector<HalfEdgePointer> > boundary;
 
-      if( !vertex->edge || vertex->edge->pair->face )
-        continue;
+    for( auto&& edge : _edges )
+    {
+      if( !edge->face )
+        boundary[ edge->source() ].push_back( edge );
+    }
 
-      auto curr = vertex->edge->target();
-      auto edge = vertex->edge->pair;
+    for( auto&& pair : boundary )
+    {
+      auto&& outgoing = pair.second;
 
-      do
+      for( std::size_t i = 0; i < outgoing.size(); i++ )
       {
-        assert( !edge->face );
-        auto edges = this->getEdges( *curr );
-
-        for( auto&& e : edges )
-        {
-          if( !e->pair->face )
-          {
-            e->pair->next = edge;
-            edge->prev    = e->pair;
-
-            edge          = e->pair;
-            curr          = e->pair->pair->target();
-            break;
-          }
-        }
-      }
-      while( curr != vertex );
+        auto next = outgoing[ (i+1) % outgoing.size() ];
+        auto prev = outgoing[i]->pair;
 
-      // Close the loop around the boundary face by adding a pointer to
-      // the identified edge.
-      vertex->edge->pair->next = edge;
-      edge->prev               = vertex->edge->pair;
+        while( prev->face )
+          prev = prev->next->pair;
+
+        prev->next = next;
+        next->prev = prev;
+      }
     }
   }
 
@@ -583,6 +578,9 @@ private:
   */
 
   std::unordered_map<Index, VertexPointer> _vertices;
+
+  /** Stores all half-edges, including the ones of the boundary */
+  std::vector<HalfEdgePointer> _edges;
 };
 
 } // namespace topology
-- 
2.43.0


From 06b6a9efd51aa66b42b07bb929c44d3f2b806c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:51 +0000
Subject: [PATCH 37/73] fix: report all faces of a mesh

Only the face of the first edge of every vertex was reported, and faces of
a vertex on the boundary were left out depending on their order.
---
 include/aleph/topology/Mesh.hh | 47 +++++++++-------------------------
 1 file changed, 12 insertions(+), 35 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index 2b7414b..fc812a3 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -121,22 +121,10 @@ public:
   // TODO: Better return type?
   std::vector< std::vector<Index> > faces() const noexcept
   {
-    std::unordered_set<FacePointer> faces;
-
-    for( auto&& pair : _vertices )
-    {
-      auto&& vertex = pair.second;
-      auto&& edge   = vertex->edge;
-      auto&& face   = edge->face;
-
-      if( face )
-        faces.insert( face );
-    }
-
     std::vector< std::vector<Index> > results;
-    results.reserve( faces.size() );
+    results.reserve( _faces.size() );
 
-    for( auto&& face : faces )
+    for( auto&& face : _faces )
       results.push_back( face->vertices() );
 
     return results;
@@ -144,19 +132,7 @@ public:
 
   std::size_t numFaces() const noexcept
   {
-    std::unordered_set<FacePointer> faces;
-
-    for( auto&& pair : _vertices )
-    {
-      auto&& vertex = pair.second;
-      auto&& edge   = vertex->edge;
-      auto&& face   = edge->face;
-
-      if( face )
-        faces.insert( face );
-    }
-
-    return faces.size();
+    return _faces.size();
   }
 
   // Mesh modification -------------------------------------------------
@@ -273,6 +249,8 @@ public:
       edge->prev = *prev;
     }
 
+    _faces.push_back( face );
+
     // Extend boundary -------------------------------------------------
     //
     // Half-edges without a face are part of the boundary. Starting from
@@ -516,17 +494,13 @@ private:
   {
     std::vector<FacePointer> faces;
 
-    auto edge = v.edge;
-    do
+    // Edges that are part of the boundary do not have a face, but there
+    // may be additional faces on the other side of the boundary.
+    for( auto&& edge : this->getEdges( v ) )
     {
-      if( edge && edge->face )
+      if( edge->face )
         faces.push_back( edge->face );
-      else
-        break;
-
-      edge = edge->pair->next;
     }
-    while( edge != v.edge );
 
     return faces;
   }
@@ -579,6 +553,9 @@ private:
 
   std::unordered_map<Index, VertexPointer> _vertices;
 
+  /** Stores all faces in the order in which they have been added */
+  std::vector<FacePointer> _faces;
+
   /** Stores all half-edges, including the ones of the boundary */
   std::vector<HalfEdgePointer> _edges;
 };
-- 
2.43.0


From 880ccd2f1e5966db9cfbf3dad2f0de711726d906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:51 +0000
Subject: [PATCH 38/73] fix: count connected components of a mesh over all
 edges

Only one edge per vertex was used to merge components, and vertices that
are not part of any face were not handled.
---
 include/aleph/topology/Mesh.hh | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index fc812a3..0d15228 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -432,13 +432,11 @@ public:
 
     for( auto&& vertex : vertices )
     {
-      auto&& v      = _vertices.at( vertex );
-      auto&& e      = v->edge;
-      auto&& source = e->source()->id;
-      auto&& target = e->target()->id;
+      auto&& v = _vertices.at( vertex );
 
       // Actually, the order does not matter one bit here...
-      uf.merge( target, source );
+      for( auto&& neighbour : this->getNeighbours( *v ) )
+        uf.merge( neighbour->id, vertex );
     }
 
     std::vector<Index> roots;
-- 
2.43.0


From 71559913d0e3459ed3cba3df7c1f9b17f0413859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:50 +0000
Subject: [PATCH 39/73] fix: load point clouds whose last line has no newline

The last line was not counted, so loading failed or yielded no points.
---
 include/aleph/containers/PointCloud.hh | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/include/aleph/containers/PointCloud.hh b/include/aleph/containers/PointCloud.hh
index 88438a8..8b2f849 100644
--- a/include/aleph/containers/PointCloud.hh
+++ b/include/aleph/containers/PointCloud.hh
@@ -233,26 +233,17 @@ template<class T> PointCloud<T> load( std::istream& in )
   if( !in )
     return PointCloud<T>();
 
-  auto lines = std::count( std::istreambuf_iterator<char>( in ),
-                           std::istreambuf_iterator<char>(),
-                           '\n' );
+  std::size_t lines = 0;
 
-  in.clear();
-  in.seekg( 0 );
-
-  if( lines <= 0 )
-    return PointCloud<T>();
-
-  // Recount all lines in the file, removing comments and empty lines
-  // from the calculation. Else, the code below allocates many points
-  // that will remain empty.
+  // Count all lines in the file, ignoring comments and empty lines. The
+  // last line is not necessarily terminated by a newline character.
   {
     std::string line;
     while( std::getline( in, line ) )
     {
       line = utilities::trim( line );
-      if( line.empty() || line.front() == '#' )
-        lines -= 1;
+      if( !line.empty() && line.front() != '#' )
+        lines += 1;
     }
   }
 
-- 
2.43.0


From 754f5f7c8072a7089e7361187d9780b280b002f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:50 +0000
Subject: [PATCH 40/73] fix: ignore indented comments when loading boundary
 matrices

They are not counted as columns but were parsed as such.
---
 include/aleph/topology/BoundaryMatrix.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/BoundaryMatrix.hh b/include/aleph/topology/BoundaryMatrix.hh
index 609a89b..55bbd4e 100644
--- a/include/aleph/topology/BoundaryMatrix.hh
+++ b/include/aleph/topology/BoundaryMatrix.hh
@@ -208,8 +208,9 @@ public:
                  std::istream_iterator<std::string>(),
                  std::back_inserter( tokens ) );
 
-      // Ignore this line if it does not contain any tokens
-      if( tokens.empty() )
+      // Ignore this line if it does not contain any tokens or if it is an
+      // indented comment
+      if( tokens.empty() || tokens.front().front() == '#' )
         continue;
 
       std::vector<Index> indices;
-- 
2.43.0


From 4f8f506c10f0ae27e0e4635c01ff280376c90ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:50 +0000
Subject: [PATCH 41/73] fix: handle single points in maximum eccentricity
 calculations

There is no distance to another point, so the maximum of an empty range was
accessed.
---
 include/aleph/containers/DataDescriptors.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/containers/DataDescriptors.hh b/include/aleph/containers/DataDescriptors.hh
index 96a0da6..268a7b2 100644
--- a/include/aleph/containers/DataDescriptors.hh
+++ b/include/aleph/containers/DataDescriptors.hh
@@ -77,7 +77,7 @@ template <class Distance, class Container> std::vector<double> eccentricities( c
       eccentricity = aleph::math::accumulate_kahan( distances.begin(), distances.end(), 0.0 );
       eccentricity = std::pow( eccentricity, 1.0 / order );
     }
-    else
+    else if( !distances.empty() )
       eccentricity = *std::max_element( distances.begin(), distances.end() );
 
     eccentricities.push_back( eccentricity );
-- 
2.43.0


From 10cf3e672c582d593e1b6d4bf94ad7edacd1ac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:00 +0000
Subject: [PATCH 42/73] fix: handle empty selections in reversible circular
 permutations

---
 include/aleph/math/Combinations.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/Combinations.hh b/include/aleph/math/Combinations.hh
index 60a28b9..0aa20b5 100644
--- a/include/aleph/math/Combinations.hh
+++ b/include/aleph/math/Combinations.hh
@@ -934,7 +934,7 @@ public:
     bool
     operator()(BidirIter first, BidirIter last)
     {
-        if (s_ == 1)
+        if (s_ <= 1)
             return f_(first, last);
         typedef typename std::iterator_traits<BidirIter>::difference_type D;
         typedef bound_range<Function, BidirIter> BoundFunc;
-- 
2.43.0


From 00212799cf1c2102c50c89f4d1619b86d8d3b9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:19 +0000
Subject: [PATCH 43/73] fix: scale compensation of Kahan sums along with the
 sum

---
 include/aleph/math/KahanSummation.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/aleph/math/KahanSummation.hh b/include/aleph/math/KahanSummation.hh
index a94e46c..dd800aa 100644
--- a/include/aleph/math/KahanSummation.hh
+++ b/include/aleph/math/KahanSummation.hh
@@ -40,12 +40,14 @@ public:
   KahanSummation& operator*= ( T v )
   {
     _sum *= v;
+    _c   *= v;
     return *this;
   }
 
   KahanSummation& operator/= ( T v )
   {
     _sum /= v;
+    _c   /= v;
     return *this;
   }
 
-- 
2.43.0


From 1f7f9e8f771fcd09a80828033b1c7bd5380bef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:35 +0000
Subject: [PATCH 44/73] fix: do not read beyond the last point when calculating
 envelopes

---
 include/aleph/persistenceDiagrams/Envelope.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/Envelope.hh b/include/aleph/persistenceDiagrams/Envelope.hh
index a505bb2..64916eb 100644
--- a/include/aleph/persistenceDiagrams/Envelope.hh
+++ b/include/aleph/persistenceDiagrams/Envelope.hh
@@ -82,7 +82,7 @@ public:
     for( auto&& x : X )
     {
       auto next = std::next( it );
-      while( next->x() == x )
+      while( next != P.end() && next->x() == x )
       {
         ++next;
         ++it;
-- 
2.43.0


From e6e32c713f4c3eedcf8c62c9952b320c3acc6186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:34 +0000
Subject: [PATCH 45/73] fix: handle points on the diagonal in persistent
 entropy

---
 include/aleph/persistenceDiagrams/Entropy.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/Entropy.hh b/include/aleph/persistenceDiagrams/Entropy.hh
index e9f5193..fec0881 100644
--- a/include/aleph/persistenceDiagrams/Entropy.hh
+++ b/include/aleph/persistenceDiagrams/Entropy.hh
@@ -177,7 +177,7 @@ template <class T> T persistentEntropy( const aleph::PersistenceDiagram<T>& D )
                   [&totalPersistence] ( T persistence )
                   {
                     auto p = persistence / totalPersistence;
-                    return p * std::log2( p );
+                    return p * detail::log2( p );
                   } );
 
   return -aleph::math::accumulate_kahan_sorted( probabilities.begin(),
-- 
2.43.0


From c288e7df87d6a8e962bc77e920f29a23cd3e570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:18 +0000
Subject: [PATCH 46/73] fix: keep dimension when calculating means of
 persistence diagrams

---
 include/aleph/persistenceDiagrams/Mean.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/aleph/persistenceDiagrams/Mean.hh b/include/aleph/persistenceDiagrams/Mean.hh
index 7c9cc38..0f597a9 100644
--- a/include/aleph/persistenceDiagrams/Mean.hh
+++ b/include/aleph/persistenceDiagrams/Mean.hh
@@ -210,6 +210,7 @@ template <class InputIterator> auto mean( InputIterator begin, InputIterator end
   while( !stop )
   {
     PersistenceDiagram Z;
+    Z.setDimension( Y.dimension() );
 
     auto k = Y.size();
     for( decltype(k) i = 0; i < k; i++ )
-- 
2.43.0


From c315469de6ed44787eb8f410074f54f2984c334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:41 +0000
Subject: [PATCH 47/73] fix: evaluate both diagrams in the kernel pseudo-metric

---
 include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
index b9f2ee0..9eae280 100644
--- a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
+++ b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
@@ -128,9 +128,9 @@ double pseudoMetric( const PersistenceDiagram<T>& D,
                      Weight w,
                      Kernel k )
 {
-  auto kxx = linearKernel(D, E, w, k);
+  auto kxx = linearKernel(D, D, w, k);
   auto kxy = linearKernel(D, E, w, k);
-  auto kyy = linearKernel(D, E, w, k);
+  auto kyy = linearKernel(E, E, w, k);
 
   return std::sqrt( kxx + kyy - 2*kxy );
 }
-- 
2.43.0


From 0258684edd3199694cc9c91e3a9222a2cf988d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:47 +0000
Subject: [PATCH 48/73] fix: use squared distances in the Gaussian kernel of
 persistence diagrams

---
 include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
index 9eae280..12a9616 100644
--- a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
+++ b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
@@ -170,7 +170,7 @@ double gaussianKernel( const PersistenceDiagram<T>& D,
                        double tau )
 {
   auto d = pseudoMetric(D, E, w, k);
-  return std::exp( -1/(2*tau*tau) * d );
+  return std::exp( -1/(2*tau*tau) * d * d );
 }
 
 /**
@@ -198,7 +198,7 @@ double gaussianKernel( const PersistenceDiagram<T>& D,
   auto k = detail::DefaultKernel( sigma );
   auto d = pseudoMetric(D, E, w, k);
 
-  return std::exp( -1/(2*tau*tau) * d );
+  return std::exp( -1/(2*tau*tau) * d * d );
 }
 
 
-- 
2.43.0


From f7dae27622cbcc1c7bdbdc1ed1fe0198958f2cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:11 +0000
Subject: [PATCH 49/73] fix: handle rounding errors in kernel pseudo-metrics

The pseudo-metrics of persistence diagram kernels are square roots of
differences of kernel values. If both diagrams contain the same points
in a different order, rounding errors may turn this difference negative
so that the result becomes NaN.
---
 include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh  | 4 +++-
 include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
index 12a9616..15d43cf 100644
--- a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
+++ b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
@@ -132,7 +132,9 @@ double pseudoMetric( const PersistenceDiagram<T>& D,
   auto kxy = linearKernel(D, E, w, k);
   auto kyy = linearKernel(E, E, w, k);
 
-  return std::sqrt( kxx + kyy - 2*kxy );
+  // The radicand may become slightly negative for equal diagrams because
+  // of rounding errors.
+  return std::sqrt( std::max( 0.0, kxx + kyy - 2*kxy ) );
 }
 
 /**
diff --git a/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh b/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
index b068581..53db05c 100644
--- a/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
+++ b/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
@@ -120,7 +120,9 @@ template <class T> double multiScalePseudoMetric( const PersistenceDiagram<T>& D
   auto kxy = multiScaleKernel( D1, D2, sigma );
   auto kyy = multiScaleKernel( D2, D2, sigma );
 
-  return std::sqrt( kxx + kyy - 2*kxy );
+  // The radicand may become slightly negative for equal diagrams because
+  // of rounding errors.
+  return std::sqrt( std::max( 0.0, kxx + kyy - 2*kxy ) );
 }
 
 } // namespace aleph
-- 
2.43.0


From c355fdd3789a66eca561c1df9645dbc4c451894c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:11 +0000
Subject: [PATCH 50/73] fix: use floating point division for pseudo-inverses of
 Laplacians

The all-ones matrix is supposed to be scaled by the number of vertices,
but integer division turned the factor into zero. The subsequent inverse
of the singular Laplacian consequently contained no meaningful values.
---
 include/aleph/geometry/HeatKernel.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/geometry/HeatKernel.hh b/include/aleph/geometry/HeatKernel.hh
index 8b5b3bd..3b37692 100644
--- a/include/aleph/geometry/HeatKernel.hh
+++ b/include/aleph/geometry/HeatKernel.hh
@@ -149,7 +149,7 @@ template <class SimplicialComplex> auto pinvWeightedLaplacianMatrix( const Simpl
   using Simplex   = typename SimplicialComplex::ValueType;
   using DataType  = typename Simplex::DataType;
 
-  Matrix M = Matrix::Constant( L.rows(), L.cols(), static_cast<DataType>( 1/ n ) );
+  Matrix M = Matrix::Constant( L.rows(), L.cols(), DataType(1) / static_cast<DataType>( n ) );
 
   return (M+L).inverse() - M;
 }
-- 
2.43.0


From d707881626513b3171b751d5e7b896c3a043a78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:11 +0000
Subject: [PATCH 51/73] fix: initialise determinant of heat kernel with one

The product of all eigenvalues started with zero, making every heat
kernel appear to be singular.
---
 include/aleph/geometry/HeatKernel.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/geometry/HeatKernel.hh b/include/aleph/geometry/HeatKernel.hh
index 3b37692..4bfa088 100644
--- a/include/aleph/geometry/HeatKernel.hh
+++ b/include/aleph/geometry/HeatKernel.hh
@@ -343,7 +343,7 @@ public:
 
   T determinant( T t) const
   {
-    T result = T();
+    T result = T(1);
 
     for( auto&& eigenvalue : _eigenvalues )
       result = result * std::exp( -t * eigenvalue );
-- 
2.43.0


From 795bfc18128d6b3837054fc2006b4e150a8d93ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:11 +0000
Subject: [PATCH 52/73] fix: evaluate heat kernel for all vertices

Eigenvectors are stored as row vectors, so their outer product needs to
be evaluated the other way around. Moreover, the result was accumulated
in an empty vector, causing a failed assertion for every complex.
---
 include/aleph/geometry/HeatKernel.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/aleph/geometry/HeatKernel.hh b/include/aleph/geometry/HeatKernel.hh
index 4bfa088..a62d252 100644
--- a/include/aleph/geometry/HeatKernel.hh
+++ b/include/aleph/geometry/HeatKernel.hh
@@ -238,14 +238,15 @@ public:
   {
 #ifdef ALEPH_WITH_EIGEN
 
-    Vector result = Vector();
+    IndexType n   = _eigenvectors.empty() ? 0 : _eigenvectors.front().size();
+    Matrix result = Matrix::Zero( n, n );
 
     for( std::size_t k = 0; k < _eigenvalues.size(); k++ )
     {
       auto&& lk  = std::exp( -t * _eigenvalues[k] );
       auto&& uk = _eigenvectors[k];
 
-      result += lk * uk * uk.transpose();
+      result += lk * uk.transpose() * uk;
     }
 
     return std::vector<T>( result.data(), result.data() + result.size() );
-- 
2.43.0


From af8dcf1361222fe79471fc370e1de1fe67b2f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:29 +0000
Subject: [PATCH 53/73] fix: correct sign of centre of algebraic spheres

The zero set of the coefficients (a,b,s) is given by a + b*x + s*|x|^2 = 0,
so its centre is -b/(2s), whereas the class reported the point reflection
of the centre.
---
 include/aleph/math/AlgebraicSphere.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/AlgebraicSphere.hh b/include/aleph/math/AlgebraicSphere.hh
index c60607e..fb6d733 100644
--- a/include/aleph/math/AlgebraicSphere.hh
+++ b/include/aleph/math/AlgebraicSphere.hh
@@ -51,7 +51,7 @@ public:
       std::transform( c.begin(), c.end(), c.begin(),
         [&s] ( T x )
         {
-          return x / (2*s);
+          return -x / (2*s);
         }
       );
 
-- 
2.43.0


From 7611114e09541e870d359235df2cc8b787f1faf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:54 +0000
Subject: [PATCH 54/73] fix: select the best sphere for curvature estimates

Spheres were fitted using the first positive eigenvalue in the order of
the solver rather than the smallest one. As a consequence, points on a
circle of radius one were assigned curvatures such as five, depending on
the number of neighbours. Use the smallest eigenvalue whose sphere has
a real radius.
---
 include/aleph/geometry/TangentSpace.hh | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/aleph/geometry/TangentSpace.hh b/include/aleph/geometry/TangentSpace.hh
index 9e2236a..9d828ef 100644
--- a/include/aleph/geometry/TangentSpace.hh
+++ b/include/aleph/geometry/TangentSpace.hh
@@ -20,6 +20,7 @@
 
 #include <cassert>
 
+#include <limits>
 #include <set>
 #include <vector>
 
@@ -413,12 +414,20 @@ private:
       auto eigenvalues = solver.eigenvalues();
       Vector u         = Vector::Zero( 1, d+2 );
 
+      // The best fit is given by the *smallest* eigenvalue whose sphere is
+      // real. It is close to zero if the points are situated on a sphere,
+      // and may be perturbed to a negative number then.
+      T smallest = std::numeric_limits<T>::max();
+
       for( Index i = 0; i < d+2; i++ )
       {
-        if( eigenvalues(i).real() > 0 && eigenvalues(i).imag() == 0 )
+        Vector v = solver.eigenvectors().real().col(i);
+        T lambda = std::abs( eigenvalues(i).real() );
+
+        if( eigenvalues(i).imag() == 0 && lambda < smallest && ( v * C ).dot( v ) > 0 )
         {
-          u = solver.eigenvectors().real().col(i);
-          break;
+          u        = v;
+          smallest = lambda;
         }
       }
 
-- 
2.43.0


From f72074bbc21ae85906c192a5c4bfb8bdea76cd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:44 +0000
Subject: [PATCH 55/73] fix: compare dimensions of points

Comparing two points of different dimensions for equality either ignored
the remaining coordinates of the second one or accessed coordinates that
do not exist.
---
 include/aleph/geometry/Point.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/aleph/geometry/Point.hh b/include/aleph/geometry/Point.hh
index 45d4aab..51d2d11 100644
--- a/include/aleph/geometry/Point.hh
+++ b/include/aleph/geometry/Point.hh
@@ -80,7 +80,8 @@ public:
   /** Checks all coordinates of two points for equality */
   bool operator==( const Point& other ) const noexcept
   {
-    return std::equal( _data.begin(), _data.end(), other._data.begin() );
+    return _data.size() == other._data.size()
+        && std::equal( _data.begin(), _data.end(), other._data.begin() );
   }
 
   /** Checks whether at least one coordinate of the two points differs */
-- 
2.43.0


From b8f9a329a3e03d645865f80bbb3b10dbcd982407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:44 +0000
Subject: [PATCH 56/73] fix: support unpaired creators of one-dimensional
 functions

Creating a persistence diagram from function values threw an exception
for every unpaired creator because the corresponding invalid index was
used to look up a function value.
---
 include/aleph/persistenceDiagrams/Calculation.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/Calculation.hh b/include/aleph/persistenceDiagrams/Calculation.hh
index 0c58a8c..88a760b 100644
--- a/include/aleph/persistenceDiagrams/Calculation.hh
+++ b/include/aleph/persistenceDiagrams/Calculation.hh
@@ -93,7 +93,10 @@ PersistenceDiagram<DataType> makePersistenceDiagram( const PersistencePairing<In
     auto&& i = pair.first;
     auto&& j = pair.second;
 
-    D.add( functionValues.at(i), functionValues.at(j) );
+    if( j < functionValues.size() )
+      D.add( functionValues.at(i), functionValues.at(j) );
+    else
+      D.add( functionValues.at(i) );
   }
 
   return D;
-- 
2.43.0


From 2a4bbf29ebcec32ff5f6a3754ccf060f5a82218c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:32 +0000
Subject: [PATCH 57/73] fix: refuse GraphML files that cannot be read

---
 include/aleph/topology/io/GraphML.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/topology/io/GraphML.hh b/include/aleph/topology/io/GraphML.hh
index 0225221..5d59639 100644
--- a/include/aleph/topology/io/GraphML.hh
+++ b/include/aleph/topology/io/GraphML.hh
@@ -99,6 +99,9 @@ public:
       XMLDocument document;
       document.LoadFile( filename.c_str() );
 
+      if( document.Error() )
+        throw std::runtime_error( "Unable to read input file" );
+
       auto root        = document.FirstChild();
       auto graphml     = root->NextSiblingElement( "graphml" );
 
-- 
2.43.0


From c9e049e240f9b80be4fcf22a8ec31f8951dcf6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:33 +0000
Subject: [PATCH 58/73] fix: read GraphML files without XML declaration

---
 include/aleph/topology/io/GraphML.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/GraphML.hh b/include/aleph/topology/io/GraphML.hh
index 5d59639..9c20704 100644
--- a/include/aleph/topology/io/GraphML.hh
+++ b/include/aleph/topology/io/GraphML.hh
@@ -102,8 +102,10 @@ public:
       if( document.Error() )
         throw std::runtime_error( "Unable to read input file" );
 
-      auto root        = document.FirstChild();
-      auto graphml     = root->NextSiblingElement( "graphml" );
+      auto graphml     = document.FirstChildElement( "graphml" );
+
+      if( !graphml )
+        throw std::runtime_error( "Unable to find GraphML element" );
 
       // 1. Read optional information about keys in the graph ----------
 
-- 
2.43.0


From 27d6d64e0e169c4eada084ac89aeaa77768341b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:01:08 +0000
Subject: [PATCH 59/73] fix: make the dimension of persistence diagrams
 readable in Python

Getter and setter of the property were exchanged, so that reading it and
assigning it both raised a TypeError.
---
 bindings/python/aleph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index b4b51f7..bef509a 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -327,7 +327,7 @@ void wrapPersistenceDiagram( py::module& m )
     )
     .def( "removeDiagonal", &PersistenceDiagram::removeDiagonal )
     .def( "removeUnpaired", &PersistenceDiagram::removeUnpaired )
-    .def_property( "dimension", &PersistenceDiagram::setDimension, &PersistenceDiagram::dimension )
+    .def_property( "dimension", &PersistenceDiagram::dimension, &PersistenceDiagram::setDimension )
     .def_property_readonly( "betti", &PersistenceDiagram::betti )
     .def( "__array__",
       [] ( PersistenceDiagram& D )
-- 
2.43.0


From fb378b132cd4bc5eecdd195d8e0275f64836dc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:01:08 +0000
Subject: [PATCH 60/73] fix: return the complex when loading with a functor in
 Python

The loaded complex was discarded, and the weights calculated by the
functor were converted to Booleans.
---
 bindings/python/aleph.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index bef509a..6a84c04 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -756,9 +756,11 @@ void wrapInputFunctions( py::module& m )
               K,
               [&functor] ( DataType a, DataType b )
               {
-                return py::cast<bool>( functor(a,b) );
+                return py::cast<DataType>( functor(a,b) );
               }
       );
+
+      return K;
     }
   );
 
-- 
2.43.0


From 80eeb23b4588a1780443a17a38982a6e151238a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:01:08 +0000
Subject: [PATCH 61/73] fix: respect strides of point arrays in Python

Arrays that are not contiguous, for example transposed ones, were read
as if they were.
---
 bindings/python/aleph.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index 6a84c04..f042d56 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -470,9 +470,13 @@ void wrapPersistentHomologyCalculation( py::module& m )
       );
 
       DataType* target = pointCloud.data();
-      DataType* source = reinterpret_cast<DataType*>( bufferInfo.ptr );
+      const char* source = reinterpret_cast<const char*>( bufferInfo.ptr );
 
-      std::copy( source, source + n*d, target );
+      // Respect the strides of the buffer because it does not have to be
+      // contiguous, for example if it refers to some columns of an array.
+      for( decltype(n) i = 0; i < n; i++ )
+        for( decltype(d) j = 0; j < d; j++ )
+          *target++ = *reinterpret_cast<const DataType*>( source + i * bufferInfo.strides[0] + j * bufferInfo.strides[1] );
 
       using Distance = aleph::geometry::distances::Euclidean<DataType>;
       dimension      = dimension > 0 ? dimension : static_cast<unsigned>( pointCloud.dimension() + 1 );
-- 
2.43.0


From 25afd7a29d95af2956f46bc33fdc083b7a447516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:01:08 +0000
Subject: [PATCH 62/73] fix: report the edge that destroys a cycle in Python

Instead of the longest edge of the triangle, the first edge that is not
shorter than the creator of the cycle was reported.
---
 bindings/python/aleph.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index f042d56..520c8f6 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -1154,17 +1154,17 @@ void wrapVietorisRipsComplexCalculation( py::module& m )
           auto k = i;
           auto l = j;
 
-          if( d1 >= creator.data() )
+          if( d1 >= destroyer.data() )
           {
             k = u; 
             l = v;
           }
-          else if( d2 >= creator.data() )
+          else if( d2 >= destroyer.data() )
           {
             k = u;
             l = w;
           }
-          else if( d3 >= creator.data() )
+          else if( d3 >= destroyer.data() )
           {
             k = v;
             l = w;
-- 
2.43.0


From 8c352e0ae170bd5daf300daca491077dd9bb0225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:08:26 +0000
Subject: [PATCH 63/73] fix: report selected edges of two-dimensional complexes
 in Python

The creator of a component was assumed to be a vertex of the edge that
destroys the component. If it is not, another edge was reported.
---
 bindings/python/aleph.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index 520c8f6..cfeaef7 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -1102,14 +1102,11 @@ void wrapVietorisRipsComplexCalculation( py::module& m )
           // make this a proper selection of edges.
           else
           {
-            auto u = K[ pair.first ][0]; // creator is always a vertex
             auto e = K[ pair.second ];   // destroyer is always an edge
 
-            // Select the proper vertex index for the destroyer; this is
-            // just the *other* vertex of the edge.
-            auto v = e[0] != u ? e[0] : e[1];
-
-            selected_edges.push_back( std::make_pair( u, v ) );
+            // The creator does not have to be a vertex of the edge, so it
+            // must not be used to describe the edge.
+            selected_edges.push_back( std::make_pair( e[1], e[0] ) );
           }
         }
 
-- 
2.43.0


From 431399585c6a21e6d1838a3e03c89e0eb873a7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:21:40 +0000
Subject: [PATCH 64/73] fix: separate diagrams in the JSON output of
 connectivity_matrix_analysis

---
 src/tools/connectivity_matrix_analysis.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tools/connectivity_matrix_analysis.cc b/src/tools/connectivity_matrix_analysis.cc
index 23b1afd..458ef41 100644
--- a/src/tools/connectivity_matrix_analysis.cc
+++ b/src/tools/connectivity_matrix_analysis.cc
@@ -117,6 +117,8 @@ int main( int argc, char** argv )
   std::cout << "{\n"
             << "\"diagrams\": [\n";
 
+  bool first = true;
+
   for( auto&& filename : filenames )
   {
     if( verbose )
@@ -172,6 +174,11 @@ int main( int argc, char** argv )
 
       kvs["persistent_entropy"]  = std::to_string( aleph::persistentEntropy( diagram ) );
 
+      if( !first )
+        std::cout << ",\n";
+
+      first = false;
+
       aleph::io::writeJSON( std::cout, diagram, basename, kvs );
     }
   }
-- 
2.43.0


From 3c9c573b6d5383c3b9cce434bf30ac5ba9be5472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:21:40 +0000
Subject: [PATCH 65/73] fix: keep the expanded complexes in
 sparse_adjacency_matrices

---
 src/tools/sparse_adjacency_matrices.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sparse_adjacency_matrices.cc b/src/tools/sparse_adjacency_matrices.cc
index 80f5ca4..ffb9b9c 100644
--- a/src/tools/sparse_adjacency_matrices.cc
+++ b/src/tools/sparse_adjacency_matrices.cc
@@ -241,7 +241,7 @@ int main( int argc, char** argv )
     std::cerr << "* Expanding simplicial complexes to dimension " << dimension << "...";
 
     for( auto&& K : simplicialComplexes )
-      expander( K, dimension );
+      K = expander( K, dimension );
 
     std::cerr << "finished\n";
   }
-- 
2.43.0


From ee61f44aef94b62b63eb2a40393f04f28ae13936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:21:40 +0000
Subject: [PATCH 66/73] fix: sort superlevel sets of degrees in descending
 order

---
 src/tools/sparse_adjacency_matrices.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sparse_adjacency_matrices.cc b/src/tools/sparse_adjacency_matrices.cc
index ffb9b9c..aea2ae2 100644
--- a/src/tools/sparse_adjacency_matrices.cc
+++ b/src/tools/sparse_adjacency_matrices.cc
@@ -315,7 +315,7 @@ int main( int argc, char** argv )
       if( useSuperlevelSets )
       {
         K.sort(
-           aleph::topology::filtrations::Data< Simplex, std::less<DataType> >()
+           aleph::topology::filtrations::Data< Simplex, std::greater<DataType> >()
          );
       }
       else
-- 
2.43.0


From 98243c0b2f60973efb3250267cf1595ec399cda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:21:40 +0000
Subject: [PATCH 67/73] fix: signatures of empty persistence diagrams

---
 src/tools/make_signature.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/make_signature.cc b/src/tools/make_signature.cc
index e33ccce..e9da7d2 100644
--- a/src/tools/make_signature.cc
+++ b/src/tools/make_signature.cc
@@ -78,7 +78,7 @@ std::vector<DataType> makeSignature( const PersistenceDiagram& D )
   // All pairwise distances with potential repetitions for points that
   // are well outside the influence radius of other points.
   std::vector<DataType> distances;
-  distances.reserve( ( D.size() * D.size() - 1 ) / 2 );
+  distances.reserve( D.size() * ( D.size() - 1 ) / 2 );
 
   for( auto it1 = D.begin(); it1 != D.end(); ++it1 )
   {
-- 
2.43.0


From b354d4a01856d33693625185aefcc167cb5ce47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:21:40 +0000
Subject: [PATCH 68/73] fix: accumulate powers of Wasserstein distances in
 topological_distance

---
 src/tools/topological_distance.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index dc3a86b..c50ac6a 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -691,7 +691,7 @@ int main( int argc, char** argv )
         useWassersteinDistance
         ? [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double p )
              {
-               return aleph::distances::wassersteinDistance( D1, D2, p );
+               return std::pow( aleph::distances::wassersteinDistance( D1, D2, p ), p );
              }
         : useBottleneckDistance
           ? [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double )
-- 
2.43.0


From 12b3af02d697970ce5e3c323f101a0a4b2950523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:36:49 +0000
Subject: [PATCH 69/73] fix: filter connectivity matrices by their weights

The complex was sorted by its vertices, so that the persistence diagrams
of connectivity_matrix_analysis depended on the order of the vertices.
---
 src/tools/connectivity_matrix_analysis.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/connectivity_matrix_analysis.cc b/src/tools/connectivity_matrix_analysis.cc
index 458ef41..5bf28de 100644
--- a/src/tools/connectivity_matrix_analysis.cc
+++ b/src/tools/connectivity_matrix_analysis.cc
@@ -15,6 +15,8 @@
 
 #include <aleph/persistentHomology/Calculation.hh>
 
+#include <aleph/topology/filtrations/Data.hh>
+
 #include <aleph/topology/io/AdjacencyMatrix.hh>
 
 #include <aleph/topology/Simplex.hh>
@@ -134,7 +136,7 @@ int main( int argc, char** argv )
       }
     );
 
-    K.sort();
+    K.sort( aleph::topology::filtrations::Data<Simplex>() );
 
     bool dualize                    = true;
     bool includeAllUnpairedCreators = keepUnpaired;
-- 
2.43.0


From f9f1ca560e9d05a02cdceff7c74d47195ef07f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:00:35 +0000
Subject: [PATCH 70/73] fix: let the short option of persistent_spines take its
 argument

---
 src/tools/persistent_spines.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/persistent_spines.cc b/src/tools/persistent_spines.cc
index ad25323..4c126ab 100644
--- a/src/tools/persistent_spines.cc
+++ b/src/tools/persistent_spines.cc
@@ -48,7 +48,7 @@ int main( int argc, char** argv )
     };
 
     int option = 0;
-    while( ( option = getopt_long( argc, argv, "r:st", commandLineOptions, nullptr ) ) != -1 )
+    while( ( option = getopt_long( argc, argv, "r:s:t", commandLineOptions, nullptr ) ) != -1 )
     {
       switch( option )
       {
-- 
2.43.0


From e38887d7420fa639f7437920bb813bcd19234308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:00:35 +0000
Subject: [PATCH 71/73] fix: normalise the remaining patches in
 process_image_patches

The last loop visited as many patches as the input has and left the
range of those that had not been filtered out. The norm of a patch was
accumulated as an integer.
---
 src/tools/process_image_patches.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/process_image_patches.cc b/src/tools/process_image_patches.cc
index 7f99eb1..5cea145 100644
--- a/src/tools/process_image_patches.cc
+++ b/src/tools/process_image_patches.cc
@@ -181,7 +181,7 @@ int main( int argc, char** argv )
 
   std::cerr << "* Final processing and normalization...";
 
-  for( IndexType i = 0; i < pointCloud.size(); i++ )
+  for( IndexType i = 0; i < processedPointCloud.size(); i++ )
   {
     auto p     = processedPointCloud[i];
     auto mean  = aleph::math::accumulate_kahan_sorted( p.begin(), p.end(), DataType() );
@@ -193,7 +193,7 @@ int main( int argc, char** argv )
                       return x - mean;
                     } );
 
-    auto norm = std::sqrt( std::inner_product( p.begin(), p.end(), p.begin(), 0 ) );
+    auto norm = std::sqrt( std::inner_product( p.begin(), p.end(), p.begin(), DataType() ) );
 
     std::transform( p.begin(), p.end(), p.begin(),
                     [&norm] ( DataType x )
-- 
2.43.0


From bdc540c476ba04caa055a52ed638a3764fc290ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:33:00 +0000
Subject: [PATCH 72/73] fix: compare absent diagrams of JSON files in
 topological_distance

---
 src/tools/topological_distance.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index c50ac6a..edf7e3f 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -295,6 +295,11 @@ double persistenceDiagramDistance( const std::vector<DataSet>& dataSet1,
     auto D1 = getPersistenceDiagram( dataSet1, dimension );
     auto D2 = getPersistenceDiagram( dataSet2, dimension );
 
+    // Diagrams that are absent or have been read from text files do not
+    // know their dimension.
+    D1.setDimension( dimension );
+    D2.setDimension( dimension );
+
     d += functor( D1, D2, power );
   }
 
-- 
2.43.0


From e6bc8f50a8033248987ff1b12da649154616f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:42:23 +0000
Subject: [PATCH 73/73] fix: ignore NaNs when determining the range of
 adjacency matrix weights

---
 include/aleph/topology/io/AdjacencyMatrix.hh | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/aleph/topology/io/AdjacencyMatrix.hh b/include/aleph/topology/io/AdjacencyMatrix.hh
index 13c49d0..0a8c3be 100644
--- a/include/aleph/topology/io/AdjacencyMatrix.hh
+++ b/include/aleph/topology/io/AdjacencyMatrix.hh
@@ -165,9 +165,22 @@ public:
     DataType maxWeight = DataType();
 
     {
-      auto minmax = std::minmax_element( values.begin(), values.end() );
-      minWeight   = *minmax.first;
-      maxWeight   = *minmax.second;
+      auto numbers = values;
+
+      // NaNs that are to be ignored must not affect the range of weights
+      if( _ignoreNaNs )
+      {
+        numbers.erase( std::remove_if( numbers.begin(), numbers.end(),
+                                       [] ( DataType w ) { return std::isnan( w ); } ),
+                       numbers.end() );
+      }
+
+      if( !numbers.empty() )
+      {
+        auto minmax = std::minmax_element( numbers.begin(), numbers.end() );
+        minWeight   = *minmax.first;
+        maxWeight   = *minmax.second;
+      }
     }
 
     // Edges -----------------------------------------------------------
-- 
2.43.0

