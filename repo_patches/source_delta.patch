From e5484aeb862c5b7f6f0e88234add261f3050b29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:56 +0000
Subject: [PATCH 01/48] fix: iterating over an empty range visits no positions

Range::begin() of a range whose upper corner lies below its lower corner was
different from end(), so iterating produced positions outside the range.
---
 src/grid/range.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/grid/range.hpp b/src/grid/range.hpp
index fcf1129..8138089 100644
--- a/src/grid/range.hpp
+++ b/src/grid/range.hpp
@@ -348,9 +348,15 @@ class Range {
         const LimitType& getPos() { return pos; }
     };
 
-    /// Creates an iterator pointing to the beginning of the rectangle
+    /**
+     * @brief Creates an iterator pointing to the beginning of the rectangle
+     *
+     * If the rectangle is empty, this is the same as end()
+     */
     iterator begin() {
-      return iterator(*this, this->getLo());
+      bool empty = false;
+      for (size_t i=0; i<rank; ++i) empty = empty || (hi[i] < lo[i]);
+      return iterator(*this, this->getLo(), empty);
     }
 
     /// Creates an iterator pointing to a position after the end of the rectangle
-- 
2.43.0


From e07c7e91e94ddd0ac775003a4dd59cb464380b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:20 +0000
Subject: [PATCH 02/48] fix: lazily allocated grids can be used like other
 grids

The lazy allocation policy used unsigned index and range types that differ
from the ones of the storage classes, so that no Grid with LazyArrayGridStorage
could be constructed or accessed, and negative lower bounds were impossible.
---
 src/grid/gridstorage/single-array-allocation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index fd0084e..d2a9c9d 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -186,10 +186,10 @@ namespace schnek
     {
     public:
         /// The grid index type
-        typedef Array<size_t, rank> IndexType;
+        typedef Array<int, rank> IndexType;
 
         /// The grid range type
-        typedef Range<size_t, rank> RangeType;
+        typedef Range<int, rank> RangeType;
     protected:
         struct SizeInfo {
             IndexType lo;
-- 
2.43.0


From caba59c419d5f45ba0acd9faccdb2d94d91d9210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:20 +0000
Subject: [PATCH 03/48] fix: assigning a lazily allocated grid takes over the
 buffer size

The assigned grid kept the buffer size of its old data, so that a following
resize could use memory beyond the end of the shared buffer.
---
 src/grid/gridstorage/single-array-allocation.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index d2a9c9d..7dd41fb 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -405,6 +405,9 @@ namespace schnek
         this->size = other.size;
         this->range = other.range;
         this->dims = other.dims;
+        this->bufSize = other.bufSize;
+        this->avgSize = other.avgSize;
+        this->avgVar = other.avgVar;
         this->data->addUpdater(this, [this](const SizeInfo& sizeInfo) { this->updateSizeInfo(sizeInfo); });
         return *this;
     };
-- 
2.43.0


From 61d4e039b51e82e09e183938e17a89e5ea7c1943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:21 +0000
Subject: [PATCH 04/48] fix: assigning a grid detaches it from the data it held
 before

The grid stayed registered with its former data. Resizing another grid that
shares that data changed the extent of the assigned grid, and wrote to freed
memory if the assigned grid had been destroyed.
---
 src/grid/gridstorage/single-array-allocation.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index 7dd41fb..6a1d6f1 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -296,6 +296,9 @@ namespace schnek
     template <typename T, size_t rank>
     SingleArrayInstantAllocation<T, rank> &SingleArrayInstantAllocation<T, rank>::operator=(const SingleArrayInstantAllocation<T, rank> &other) 
     {
+        if (this->data != other.data) {
+            this->data->removeUpdater(this);
+        }
         this->data = other.data;
         this->size = other.size;
         this->range = other.range;
@@ -401,6 +404,9 @@ namespace schnek
     template <typename T, size_t rank>
     SingleArrayLazyAllocation<T, rank> &SingleArrayLazyAllocation<T, rank>::operator=(const SingleArrayLazyAllocation<T, rank> &other) 
     {
+        if (this->data != other.data) {
+            this->data->removeUpdater(this);
+        }
         this->data = other.data;
         this->size = other.size;
         this->range = other.range;
-- 
2.43.0


From 7880d4e65a3a0501b478cea98080a2ab5d5dcf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 05/48] fix: grids can be indexed with array expressions

The index operators for array expressions deduced the length as int while
ArrayExpression uses size_t, so they never matched.
---
 src/grid/grid.hpp | 4 ++--
 src/grid/grid.t   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grid/grid.hpp b/src/grid/grid.hpp
index 27f153e..bbb9d67 100644
--- a/src/grid/grid.hpp
+++ b/src/grid/grid.hpp
@@ -96,10 +96,10 @@ namespace schnek {
         SCHNEK_INLINE T  operator[](const Array<int,rank,ArrayCheckingPolicy>& pos) const; // read
 
         /** index operator, writing */
-        template<class Operator, int Length>
+        template<class Operator, size_t Length>
         SCHNEK_INLINE T& operator[](const ArrayExpression<Operator, Length>& pos); // write
         /** index operator, reading */
-        template<class Operator, int Length>
+        template<class Operator, size_t Length>
         SCHNEK_INLINE T  operator[](const ArrayExpression<Operator, Length>& pos) const; // read
 
         /** index operator, for 1D grids, writing */
diff --git a/src/grid/grid.t b/src/grid/grid.t
index 3618f59..91edafd 100644
--- a/src/grid/grid.t
+++ b/src/grid/grid.t
@@ -118,7 +118,7 @@ template<
   class CheckingPolicy,
   class StoragePolicy
 >
-template<class Operator, int Length>
+template<class Operator, size_t Length>
 SCHNEK_INLINE T& GridBase<T, rank, CheckingPolicy, StoragePolicy>
   ::operator[](const ArrayExpression<Operator, Length>& pos)
 {
@@ -131,7 +131,7 @@ template<
   class CheckingPolicy,
   class StoragePolicy
 >
-template<class Operator, int Length>
+template<class Operator, size_t Length>
 SCHNEK_INLINE T GridBase<T, rank, CheckingPolicy, StoragePolicy>
   ::operator[](const ArrayExpression<Operator, Length>& pos) const
 {
-- 
2.43.0


From 5b16901b51ebf9508c299da24e303c906ab48f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 06/48] fix: copies of Kokkos grids share their data after a
 resize or an assignment

Resizing replaced the view of one grid only, while all its copies took over the
new extent and then accessed memory outside their own view. Assignment did not
register the grid with the data it now shares. getSize() did not compile.
---
 src/grid/gridstorage/kokkos-storage.hpp | 55 +++++++++++++++++++------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/grid/gridstorage/kokkos-storage.hpp b/src/grid/gridstorage/kokkos-storage.hpp
index 0a1b22a..91b26cc 100644
--- a/src/grid/gridstorage/kokkos-storage.hpp
+++ b/src/grid/gridstorage/kokkos-storage.hpp
@@ -75,7 +75,8 @@ namespace schnek {
         /// The grid range type
         typedef Range<int, rank> RangeType;
     private:
-        typedef std::function<void(const RangeType&)> UpdaterType;
+        typedef Kokkos::View<typename internal::KokkosViewType<T, rank>::type, ViewProperties...> ViewType;
+        typedef std::function<void(const RangeType&, const ViewType&)> UpdaterType;
         typedef std::map<void *, UpdaterType> UpdaterMapType;
 
         /// The lowest and highest coordinates in the grid (inclusive)
@@ -84,7 +85,7 @@ namespace schnek {
         /// The dimensions of the grid `dims = high - low + 1`
         IndexType dims;
 
-        Kokkos::View<typename internal::KokkosViewType<T, rank>::type, ViewProperties...> view;
+        ViewType view;
 
         /// A map of updaters that are called when the grid is resized
         std::shared_ptr<UpdaterMapType> updaters;
@@ -112,6 +113,11 @@ namespace schnek {
          */
         KokkosGridStorage(const RangeType &range);
 
+        /**
+         * @brief Assignment operator
+         */
+        KokkosGridStorage &operator=(const KokkosGridStorage &);
+
         /// Destructor frees any allocated memory
         ~KokkosGridStorage();
 
@@ -153,7 +159,7 @@ namespace schnek {
         SCHNEK_INLINE int getDims(int k) const { return this->dims[k]; }
 
         /// Get the length of the allocated array
-        SCHNEK_INLINE int getSize() const { return this->size; }
+        SCHNEK_INLINE int getSize() const { return this->dims.product(); }
 
         /**
          * @brief resizes to grid with lower indices low[0],...,low[rank-1]
@@ -170,7 +176,7 @@ namespace schnek {
         template<std::size_t... I>
         auto createKokkosViewImpl(const IndexType& a, std::index_sequence<I...>)
         {
-            Kokkos::View<typename internal::KokkosViewType<T, rank>::type, ViewProperties...> view("schnek", a[I]...);
+            ViewType view("schnek", a[I]...);
             return view;
         }
         
@@ -201,12 +207,19 @@ namespace schnek {
             return getFromViewImpl(pos, std::make_index_sequence<rank>{});
         }
 
-        void update(const RangeType& range) {
+        void update(const RangeType& range, const ViewType& view) {
             for (auto& updater: *updaters) {
-                updater.second(range);
+                updater.second(range, view);
             }
         }
 
+        void addUpdater() {
+            (*updaters)[this] = [this](const RangeType& range, const ViewType& view) {
+                this->updateSizeInfo(range);
+                this->view = view;
+            };
+        }
+
         void updateSizeInfo(const RangeType &range) {
             this->range = range;
             for (size_t i = 0; i < rank; ++i)
@@ -229,7 +242,7 @@ namespace schnek {
           dims{0},
           updaters{new UpdaterMapType}
     {
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        addUpdater();
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -238,7 +251,7 @@ namespace schnek {
           dims{other.dims}, view{other.view},
           updaters{other.updaters}
     {
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        addUpdater();
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -248,7 +261,7 @@ namespace schnek {
     {
         dims = hi - lo + 1;
         view = createKokkosView(dims);
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        addUpdater();
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -258,7 +271,26 @@ namespace schnek {
     {
         dims = range.getHi() - range.getLo() + 1;
         view = createKokkosView(dims);
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        addUpdater();
+    }
+
+    template <typename T, size_t rank, class ...ViewProperties>
+    KokkosGridStorage<T, rank, ViewProperties...> &KokkosGridStorage<T, rank, ViewProperties...>::operator=(const KokkosGridStorage &other)
+    {
+        if (this == &other)
+        {
+            return *this;
+        }
+        if (updaters != other.updaters)
+        {
+            updaters->erase(this);
+        }
+        range = other.range;
+        dims = other.dims;
+        view = other.view;
+        updaters = other.updaters;
+        addUpdater();
+        return *this;
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -293,8 +325,7 @@ namespace schnek {
     void KokkosGridStorage<T, rank, ViewProperties...>::resize(const IndexType &lo, const IndexType &hi)
     {
         IndexType dims = hi - lo + 1;
-        this->view = createKokkosView(dims);
-        update(RangeType{lo, hi});
+        update(RangeType{lo, hi}, createKokkosView(dims));
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
-- 
2.43.0


From aefd272d7b57d70bf053a0c004a8aa1a869aff6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:46 +0000
Subject: [PATCH 07/48] fix: sub grids compile again and keep their dimensions
 after a resize

SubGridStorage lacked the RangeType that the grid base class requires, so that
no SubGrid could be created (see examples/example_grids_subgrid.cpp). Default
construction and the const iterators did not compile either, and resizing left
the dimensions unchanged.
---
 src/grid/range.hpp   | 4 ++--
 src/grid/subgrid.hpp | 5 +++--
 src/grid/subgrid.t   | 4 +++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/grid/range.hpp b/src/grid/range.hpp
index 8138089..a3fee54 100644
--- a/src/grid/range.hpp
+++ b/src/grid/range.hpp
@@ -353,14 +353,14 @@ class Range {
      *
      * If the rectangle is empty, this is the same as end()
      */
-    iterator begin() {
+    iterator begin() const {
       bool empty = false;
       for (size_t i=0; i<rank; ++i) empty = empty || (hi[i] < lo[i]);
       return iterator(*this, this->getLo(), empty);
     }
 
     /// Creates an iterator pointing to a position after the end of the rectangle
-    iterator end() {
+    iterator end() const {
       return iterator(*this, this->getLo(), true);
     }
 };
diff --git a/src/grid/subgrid.hpp b/src/grid/subgrid.hpp
index aad8191..0914a76 100644
--- a/src/grid/subgrid.hpp
+++ b/src/grid/subgrid.hpp
@@ -42,6 +42,7 @@ class SubGridStorage {
     typedef Array<int,rank> IndexType;
     typedef BaseGrid BaseGridType;
     typedef Range<int, rank> DomainType;
+    typedef DomainType RangeType;
   protected:
     BaseGridType *baseGrid;
     DomainType domain;
@@ -133,8 +134,8 @@ class SubGridStorage {
     storage_iterator begin() { return storage_iterator(domain.begin(), baseGrid); }
     storage_iterator end() { return storage_iterator(domain.end(), baseGrid); }
 
-    const_storage_iterator cbegin() const { return const_storage_iterator(domain.cbegin(), baseGrid); }
-    const_storage_iterator cend() const { return const_storage_iterator(domain.cend(), baseGrid); }
+    const_storage_iterator cbegin() const { return const_storage_iterator(domain.begin(), baseGrid); }
+    const_storage_iterator cend() const { return const_storage_iterator(domain.end(), baseGrid); }
 
     void setBaseGrid(BaseGridType &baseGrid_) { baseGrid = &baseGrid_; }
 
diff --git a/src/grid/subgrid.t b/src/grid/subgrid.t
index c7b2563..a76b7dd 100644
--- a/src/grid/subgrid.t
+++ b/src/grid/subgrid.t
@@ -33,7 +33,7 @@ template<
   class BaseGrid
 >
 SubGridStorage<T, rank, BaseGrid>::SubGridStorage()
-  : baseGrid(NULL), domain(0,0), dims(0)
+  : baseGrid(NULL), domain(), dims(0)
 {}
 
 template<
@@ -56,6 +56,8 @@ template<
 void SubGridStorage<T, rank, BaseGrid>::resize(const IndexType &low_, const IndexType &high_)
 {
     domain = DomainType(low_, high_);
+    for (size_t d = 0; d < rank; d++)
+      dims[d] = high_[d] - low_[d] + 1;
 }
 
 template<
-- 
2.43.0


From f2d430e334a10ea8eacc2921321a3a1325d3d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:59 +0000
Subject: [PATCH 08/48] fix: grid transformations compile again and may change
 the value type

GridTransformStorage lacked the RangeType that the grid base class requires and
used int where the policies use size_t, so that no GridTransform could be created
(see examples/example_grids_transform.cpp). It also used the value type of the
base grid for the transformed values.
---
 src/grid/gridtransform.hpp | 15 ++++++++-------
 src/grid/gridtransform.t   |  6 +++---
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/grid/gridtransform.hpp b/src/grid/gridtransform.hpp
index fc50cf1..c0e1cc1 100644
--- a/src/grid/gridtransform.hpp
+++ b/src/grid/gridtransform.hpp
@@ -34,13 +34,14 @@ namespace schnek {
 
 template<
   typename T,
-  int rank,
+  size_t rank,
   class BaseGrid,
   typename Transformation
 >
 class GridTransformStorage {
   public:
     typedef Array<int,rank> IndexType;
+    typedef Range<int,rank> RangeType;
     typedef BaseGrid BaseGridType;
     typedef Transformation TransformationType;
   protected:
@@ -52,9 +53,9 @@ class GridTransformStorage {
       protected:
         typedef typename BaseGridType::const_storage_iterator BaseIter;
         BaseIter baseIter;
-        GridTransformStorage &storage;
+        const GridTransformStorage &storage;
 
-        const_storage_iterator(BaseIter baseIter, GridTransformStorage &storage)
+        const_storage_iterator(BaseIter baseIter, const GridTransformStorage &storage)
           : baseIter(baseIter), storage(storage) {}
 
         friend class GridTransformStorage;
@@ -128,7 +129,7 @@ class GridTransformStorage {
 template<
   class BaseGrid,
   typename Transformation,
-  template<int> class CheckingPolicy = GridNoArgCheck
+  template<size_t> class CheckingPolicy = GridNoArgCheck
 >
 class GridTransform
   : public internal::GridBase
@@ -137,7 +138,7 @@ class GridTransform
       BaseGrid::Rank,
       CheckingPolicy<BaseGrid::Rank>,
       GridTransformStorage<
-        typename BaseGrid::value_type,
+        typename Transformation::value_type,
         BaseGrid::Rank,
         BaseGrid,
         Transformation
@@ -151,7 +152,7 @@ class GridTransform
           BaseGrid::Rank,
           CheckingPolicy<BaseGrid::Rank>,
           GridTransformStorage<
-            typename BaseGrid::value_type,
+            typename Transformation::value_type,
             BaseGrid::Rank,
             BaseGrid,
             Transformation
@@ -185,7 +186,7 @@ class TypeCastTransform
   public:
     typedef DestType value_type;
   public:
-    DestType operator()(SrcType x) {return (DestType)x; }
+    DestType operator()(SrcType x) const {return (DestType)x; }
 };
 
 } // namespace schnek
diff --git a/src/grid/gridtransform.t b/src/grid/gridtransform.t
index d644fed..696e500 100644
--- a/src/grid/gridtransform.t
+++ b/src/grid/gridtransform.t
@@ -29,7 +29,7 @@ namespace schnek
 
 template<
   typename T,
-  int rank,
+  size_t rank,
   class BaseGrid,
   typename Transformation
 >
@@ -40,7 +40,7 @@ GridTransformStorage<T, rank, BaseGrid, Transformation>::GridTransformStorage()
 template<
   class BaseGrid,
   typename Transformation,
-  template<int> class CheckingPolicy
+  template<size_t> class CheckingPolicy
 >
 GridTransform<BaseGrid, Transformation, CheckingPolicy>::GridTransform()
   : ParentType()
@@ -49,7 +49,7 @@ GridTransform<BaseGrid, Transformation, CheckingPolicy>::GridTransform()
 template<
   class BaseGrid,
   typename Transformation,
-  template<int> class CheckingPolicy
+  template<size_t> class CheckingPolicy
 >
 GridTransform<BaseGrid, Transformation, CheckingPolicy>::GridTransform(BaseGridType &baseGrid_)
   : ParentType()
-- 
2.43.0


From c6ffaf8121f51b14f41bff64393c952a430b471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:17 +0000
Subject: [PATCH 09/48] fix: sub grids of ghost cells can be obtained from a
 boundary

Boundary::getGhostBoundary passed its array checking policy as the grid
checking policy of the sub grid and could not be instantiated.
---
 src/grid/boundary.hpp | 4 ++--
 src/grid/boundary.t   | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/grid/boundary.hpp b/src/grid/boundary.hpp
index 0870125..f58a68b 100644
--- a/src/grid/boundary.hpp
+++ b/src/grid/boundary.hpp
@@ -134,7 +134,7 @@ class Boundary
      * @return A sub-grid containing ghost cells
      */
     template<class GridType>
-    SubGrid<GridType, CheckingPolicy> getGhostBoundary(size_t dim, bound b, GridType &grid);
+    SubGrid<GridType> getGhostBoundary(size_t dim, bound b, GridType &grid);
 
     /** Returns sub-grid containing only the boundary domain.
      * The bounadry domain has a thickness determined by the number of ghost cells.
@@ -150,7 +150,7 @@ class Boundary
       template<size_t> class CheckingPolicy2,
       template<typename, size_t> class StoragePolicy
     >
-    SubGrid<Field<T,rank,CheckingPolicy2,StoragePolicy>, CheckingPolicy>
+    SubGrid<Field<T,rank,CheckingPolicy2,StoragePolicy> >
       getGhostBoundary(size_t dim, bound b, Field<T,rank,CheckingPolicy2,StoragePolicy> &field);
 };
 
diff --git a/src/grid/boundary.t b/src/grid/boundary.t
index 96bd12c..6fcb0b9 100644
--- a/src/grid/boundary.t
+++ b/src/grid/boundary.t
@@ -141,10 +141,10 @@ template<
   template<size_t> class CheckingPolicy
 >
 template<class GridType>
-SubGrid<GridType, CheckingPolicy> Boundary<rank,CheckingPolicy>::getGhostBoundary(size_t dim, bound b, GridType &grid)
+SubGrid<GridType> Boundary<rank,CheckingPolicy>::getGhostBoundary(size_t dim, bound b, GridType &grid)
 {
         DomainType bounds = getGhostDomain(dim, b);
-        return SubGrid<GridType, CheckingPolicy>(bounds.getLo(), bounds.getHi(), grid);
+        return SubGrid<GridType>(bounds.getLo(), bounds.getHi(), grid);
 }
 
 template<
@@ -156,11 +156,11 @@ template<
   template<size_t> class CheckingPolicy2,
   template<typename, size_t> class StoragePolicy
 >
-SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy>, CheckingPolicy>
+SubGrid<Field<T,rank,CheckingPolicy2,StoragePolicy> >
   Boundary<rank,CheckingPolicy>::getGhostBoundary(size_t dim, bound b, Field<T,rank,CheckingPolicy2,StoragePolicy> &field)
 {
         DomainType bounds = getBoundaryDomain(dim, b, field.getStagger()[dim]);
-        return SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy>, CheckingPolicy>(bounds.getLo(), bounds.getHi(), field);
+        return SubGrid<Field<T,rank,CheckingPolicy2,StoragePolicy> >(bounds.getLo(), bounds.getHi(), field);
 }
 
 } // namespace schnek
-- 
2.43.0


From a0e9d64504c266b731a5eac13f89cf3c4b34d4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:17 +0000
Subject: [PATCH 10/48] fix: the inner range of a field can be obtained

Field::getInnerRange passed two expressions of different types to the
range constructor and could not be instantiated.
---
 src/grid/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grid/field.hpp b/src/grid/field.hpp
index 58de237..2bffa31 100644
--- a/src/grid/field.hpp
+++ b/src/grid/field.hpp
@@ -104,7 +104,7 @@ class Field : public Grid<T, rank, CheckingPolicy, StoragePolicy>
     IndexType getInnerHi() { return this->getHi() - ghostCells; }
 
     /** Get the range the inner grid range */
-    RangeType getInnerRange() { return RangeType{this->getLo() + ghostCells, this->getHi() - ghostCells}; }
+    RangeType getInnerRange() { return RangeType{getInnerLo(), getInnerHi()}; }
 
     /** Calculates index and offset from a position on the field
      *
-- 
2.43.0


From bcf4639c5a125ffd4fa569f84db4737ad1bac0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:36 +0000
Subject: [PATCH 11/48] fix: Cartesian subdivision of global domains that do
 not start at zero

The local domains were computed as if the lower corner of the global
domain was zero, so they did not cover the requested index range.
---
 src/grid/mpisubdivision.t | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grid/mpisubdivision.t b/src/grid/mpisubdivision.t
index 3b87a65..4e640fb 100644
--- a/src/grid/mpisubdivision.t
+++ b/src/grid/mpisubdivision.t
@@ -104,15 +104,15 @@ void MPICartSubdivision<GridType>::init(const LimitType &lo, const LimitType &hi
     errorCode = MPI_Cart_shift(comm,i,1,&prevcoord[i],&nextcoord[i]);
     SCHNEK_ASSERT(errorCode == MPI_SUCCESS, "Could not shift Cartesian coordinates ("+boost::lexical_cast<std::string>(errorCode)+")");
 
-    width[i] = (High[i]-1.)/double(dims[i]);
+    width[i] = (High[i]-lo[i]-1.)/double(dims[i]);
 
     if (mycoord[i]>0)
-      Low[i] = int(width[i]*mycoord[i])-delta+1;
+      Low[i] = lo[i]+int(width[i]*mycoord[i])-delta+1;
     else
-      Low[i] = -delta;
+      Low[i] = lo[i]-delta;
 
     if (mycoord[i]<(dims[i]-1))
-      High[i] = int(width[i]*(mycoord[i]+1))+delta;
+      High[i] = lo[i]+int(width[i]*(mycoord[i]+1))+delta;
     else
       High[i] = High[i]+delta;
 
-- 
2.43.0


From a3c5e2f9bd914623d58eb02aa97bfa2d74efd4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:36 +0000
Subject: [PATCH 12/48] fix: local physical extent for global domains that do
 not start at zero

getInnerExtent measured the local index range from zero instead of from
the lower corner of the global domain.
---
 src/grid/domainsubdivision.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grid/domainsubdivision.hpp b/src/grid/domainsubdivision.hpp
index cbc227d..2cf5ce9 100644
--- a/src/grid/domainsubdivision.hpp
+++ b/src/grid/domainsubdivision.hpp
@@ -141,8 +141,8 @@ class DomainSubdivision {
       {
         const T &lo = globalExtent.getLo()[i];
         T dx = (globalExtent.getHi()[i]-lo) / (T)(globalGridSize.getHi()[i] - globalGridSize.getLo()[i] + 1);
-        localDomainMin[i] = lo + this->getInnerLo()[i]*dx;
-        localDomainMax[i] = lo + (this->getInnerHi()[i] + 1)*dx;
+        localDomainMin[i] = lo + (this->getInnerLo()[i] - globalGridSize.getLo()[i])*dx;
+        localDomainMax[i] = lo + (this->getInnerHi()[i] - globalGridSize.getLo()[i] + 1)*dx;
       }
       return Range<T, Rank, CheckingPolicy>(localDomainMin,localDomainMax);
     }
-- 
2.43.0


From c3a5c8a9725c191a1e299e2cc85d6e9eeabafe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:36 +0000
Subject: [PATCH 13/48] fix: the global domain of a serial subdivision excludes
 the ghost cells

It was documented to do so, but was the domain with the ghost cells, so
getInnerExtent did not return the whole physical extent.
---
 src/grid/domainsubdivision.hpp | 5 ++++-
 src/grid/domainsubdivision.t   | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/grid/domainsubdivision.hpp b/src/grid/domainsubdivision.hpp
index 2cf5ce9..5748a1e 100644
--- a/src/grid/domainsubdivision.hpp
+++ b/src/grid/domainsubdivision.hpp
@@ -250,6 +250,9 @@ class SerialSubdivision : public DomainSubdivision<GridType>
 
     /// The positions of the upper corner of the local piece of the grid
     LimitType High;
+
+    /// The global domain excluding ghost cells
+    DomainType globalDomain;
   public:
     using DomainSubdivision<GridType>::init;
     using DomainSubdivision<GridType>::exchange;
@@ -267,7 +270,7 @@ class SerialSubdivision : public DomainSubdivision<GridType>
     void init(const LimitType &low, const LimitType &high, int delta);
 
     /// Return the global domain size excluding ghost cells
-    const DomainType &getGlobalDomain() const { return this->bounds->getDomain(); }
+    const DomainType &getGlobalDomain() const { return globalDomain; }
 
     /** @brief Exchanges the boundaries in direction specified by dim.
      *
diff --git a/src/grid/domainsubdivision.t b/src/grid/domainsubdivision.t
index cd6206e..c2aa70e 100644
--- a/src/grid/domainsubdivision.t
+++ b/src/grid/domainsubdivision.t
@@ -40,6 +40,7 @@ template<class GridType>
 void SerialSubdivision<GridType>::init(const LimitType &low, const LimitType &high, int delta)
 {
   this->bounds = std::make_shared<BoundaryType>(low, high, delta);
+  globalDomain = this->bounds->getInnerDomain();
 }
 
 template<class GridType>
-- 
2.43.0


From 2af841d6297ba486a945382afbfedb3567a7f4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:36 +0000
Subject: [PATCH 14/48] fix: serial exchangeData copies the buffer

The received buffer shared its data with the sent one, so refilling the
send buffer destroyed the received data.
---
 src/grid/domainsubdivision.t | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grid/domainsubdivision.t b/src/grid/domainsubdivision.t
index c2aa70e..265e5d7 100644
--- a/src/grid/domainsubdivision.t
+++ b/src/grid/domainsubdivision.t
@@ -24,6 +24,7 @@
  *
  */
 
+#include <algorithm>
 #include <memory>
 
 namespace schnek {
@@ -114,7 +115,8 @@ void SerialSubdivision<GridType>::accumulate(GridType &grid, size_t dim)
 template<class GridType>
 void SerialSubdivision<GridType>::exchangeData(size_t, int, BufferType &in, BufferType &out)
 {
-  out = in;
+  out.resize(in.getLo(), in.getHi());
+  std::copy(in.begin(), in.end(), out.begin());
 }
 
 } // namespace schnek
-- 
2.43.0


From c3b03c26de6f78aa6a7ad4e35e71e7fdce627d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:36 +0000
Subject: [PATCH 15/48] fix: tokens and comments of any length can be scanned

---
 parser/deckscanner.rl               | 19 ++++++++++++-------
 src/parser/internal/deckscanner.cpp | 19 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index ebacad4..6e67761 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -7,6 +7,7 @@
 #include <string>
 #include <cstring>
 #include <cstdio>
+#include <vector>
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
@@ -103,7 +104,8 @@ using namespace schnek;
     
 void DeckScanner::do_scan(TokenList &tlist)
 {
-  static char buf[BUFSIZE];
+  std::vector<char> buffer(BUFSIZE);
+  char *buf = &buffer[0];
   int cs; 
   int act; 
   int have = 0;
@@ -115,16 +117,19 @@ void DeckScanner::do_scan(TokenList &tlist)
   %% write init;
 
   while ( !done ) {
-    char *p = buf + have, *pe, *eof = 0;
-    int len, space = BUFSIZE - have;
-    
-    if ( space == 0 ) {
+    if ( have == (int)buffer.size() ) {
       /* We've used up the entire buffer storing an already-parsed token
        * prefix that must be preserved. */
-      std::cerr << "OUT OF BUFFER SPACE\n";
-      // exit(1);
+      int tokLen = te - ts;
+      buffer.resize(2*buffer.size());
+      buf = &buffer[0];
+      ts = buf;
+      te = buf + tokLen;
     }
 
+    char *p = buf + have, *pe, *eof = 0;
+    int len, space = buffer.size() - have;
+
     input->read(p,space);
     len = input->gcount();
     //len = fread( p, 1, space, *input );
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index aa6c180..0db8d4b 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -9,6 +9,7 @@
 #include <string>
 #include <cstring>
 #include <cstdio>
+#include <vector>
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
@@ -216,7 +217,8 @@ static const int deck_en_main = 10;
     
 void DeckScanner::do_scan(TokenList &tlist)
 {
-  static char buf[BUFSIZE];
+  std::vector<char> buffer(BUFSIZE);
+  char *buf = &buffer[0];
   int cs; 
   int act; 
   int have = 0;
@@ -237,16 +239,19 @@ void DeckScanner::do_scan(TokenList &tlist)
 
 
   while ( !done ) {
-    char *p = buf + have, *pe, *eof = 0;
-    int len, space = BUFSIZE - have;
-    
-    if ( space == 0 ) {
+    if ( have == (int)buffer.size() ) {
       /* We've used up the entire buffer storing an already-parsed token
        * prefix that must be preserved. */
-      std::cerr << "OUT OF BUFFER SPACE\n";
-      // exit(1);
+      int tokLen = te - ts;
+      buffer.resize(2*buffer.size());
+      buf = &buffer[0];
+      ts = buf;
+      te = buf + tokLen;
     }
 
+    char *p = buf + have, *pe, *eof = 0;
+    int len, space = buffer.size() - have;
+
     input->read(p,space);
     len = input->gcount();
     //len = fread( p, 1, space, *input );
-- 
2.43.0


From 41af902fea34819bba74d7499dc919bb1e15dd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:36 +0000
Subject: [PATCH 16/48] fix: a line comment may end with the file

---
 parser/deckscanner.rl               | 2 ++
 src/parser/internal/deckscanner.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index 6e67761..79c6942 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -137,6 +137,8 @@ void DeckScanner::do_scan(TokenList &tlist)
 
     /* Check if this is the end of file. */
     if ( len < space ) {
+      /* The last line may not have been ended with a newline */
+      *(pe++) = '\n';
       eof = pe;
       done = 1;
     }
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index 0db8d4b..6108184 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -259,6 +259,8 @@ void DeckScanner::do_scan(TokenList &tlist)
 
     /* Check if this is the end of file. */
     if ( len < space ) {
+      /* The last line may not have been ended with a newline */
+      *(pe++) = '\n';
       eof = pe;
       done = 1;
     }
-- 
2.43.0


From a1441fb4c3af1f42b186bd450ea44eb6d03675a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:36 +0000
Subject: [PATCH 17/48] fix: report illegal characters and unterminated strings
 and comments

---
 parser/deckscanner.rl               | 12 +++++++++---
 src/parser/internal/deckscanner.cpp | 12 +++++++++---
 src/parser/tokenlist.hpp            |  6 ++++++
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index 79c6942..792c851 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -11,6 +11,7 @@
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
+#include "../parsertoken.hpp"
 
 using namespace schnek;
 
@@ -145,9 +146,14 @@ void DeckScanner::do_scan(TokenList &tlist)
             
     %% write exec;
 
-    if ( cs == deck_error ) {
-      std::cerr << "TOKENISER ERROR " << cur_line << "\n";
-      break;
+    if ( cs == deck_error )
+      throw ParserError("Illegal character", Token(tlist.getFilename(), cur_line, 0));
+
+    if ( done && (cs != deck_start) ) {
+      /* Inside a string or a comment, report the line where the string started */
+      --cur_line;
+      for (char *c = ts; ts && (c < pe - 1); ++c) if (*c == '\n') --cur_line;
+      throw ParserError("Unterminated string or comment", Token(tlist.getFilename(), cur_line, 0));
     }
 
     if ( ts == 0 )
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index 6108184..faf22cf 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -13,6 +13,7 @@
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
+#include "../parsertoken.hpp"
 
 using namespace schnek;
 
@@ -554,9 +555,14 @@ _again:
 
 
 
-    if ( cs == deck_error ) {
-      std::cerr << "TOKENISER ERROR " << cur_line << "\n";
-      break;
+    if ( cs == deck_error )
+      throw ParserError("Illegal character", Token(tlist.getFilename(), cur_line, 0));
+
+    if ( done && (cs != deck_start) ) {
+      /* Inside a string or a comment, report the line where the string started */
+      --cur_line;
+      for (char *c = ts; ts && (c < pe - 1); ++c) if (*c == '\n') --cur_line;
+      throw ParserError("Unterminated string or comment", Token(tlist.getFilename(), cur_line, 0));
     }
 
     if ( ts == 0 )
diff --git a/src/parser/tokenlist.hpp b/src/parser/tokenlist.hpp
index 7dfcecd..dad94c4 100644
--- a/src/parser/tokenlist.hpp
+++ b/src/parser/tokenlist.hpp
@@ -137,6 +137,12 @@ class TokenList
       tlist.clear();
     }
 
+    /// Returns the name of the file from which the tokens were read
+    std::string getFilename() const
+    {
+      return filename;
+    }
+
     /// Insert an individual token onto the list.
     void insert(int line, int token)
     {
-- 
2.43.0


From daae7fe4342ec1904c32a9cbf961c03e56ccc9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:36 +0000
Subject: [PATCH 18/48] fix: names starting with e can be followed by a signed
 number

---
 parser/deckscanner.rl               | 2 +-
 src/parser/internal/deckscanner.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index 792c851..eba3050 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -93,7 +93,7 @@ using namespace schnek;
 	# Match a floating point number.
 	float_exp = [eE] [+\-]? digit+;
 	float_dec = '.' digit* float_exp?;
-	digit* (float_dec | float_exp) { tlist.insert(cur_line, FLOAT,ts,te-ts); };
+	(digit* float_dec | digit+ float_exp) { tlist.insert(cur_line, FLOAT,ts,te-ts); };
 
 	*|;
 }%%
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index faf22cf..2e55ba3 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -121,7 +121,7 @@ static const char _deck_indicies[] = {
 	10, 8, 13, 12, 15, 16, 14, 15, 
 	16, 17, 14, 19, 0, 4, 21, 22, 
 	23, 24, 25, 26, 27, 28, 30, 31, 
-	33, 34, 32, 35, 33, 36, 37, 38, 
+	32, 34, 32, 35, 32, 36, 37, 38, 
 	39, 40, 41, 20, 29, 20, 32, 20, 
 	32, 20, 18, 43, 43, 27, 42, 10, 
 	42, 45, 12, 44, 27, 43, 43, 29, 
-- 
2.43.0


From fab9fd36d9ced81a2c577c3509d66f5c00668091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:29 +0000
Subject: [PATCH 19/48] fix: operators of equal precedence group from the left
 for mixed types

---
 parser/deckgrammar.y       |  12 +-
 src/parser/deckgrammar.inc | 400 +++++++++++++++++--------------------
 2 files changed, 192 insertions(+), 220 deletions(-)

diff --git a/parser/deckgrammar.y b/parser/deckgrammar.y
index b5bad7b..078dbcb 100644
--- a/parser/deckgrammar.y
+++ b/parser/deckgrammar.y
@@ -42,20 +42,16 @@ declaration ::= error.
 
 assignment(LHS) ::= IDENTIFIER(iden) EQUAL expression(expr). { SCHNEK_TRACE_LOG(5,"Parser: Rule 10"<< toString(expr.getType()) << " " << expr.getString()); LHS.evaluateExpression(iden,expr); }   // --done--
 
-expression(LHS) ::= signed_term_expression(A) PLUS unsigned_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 11"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorAdd>(A,B); }  // --done--
-expression(LHS) ::= signed_term_expression(A) MINUS unsigned_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 12"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorSubtract>(A,B); }  // --done--
+expression(LHS) ::= expression(A) PLUS term_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 11"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorAdd>(A,B); }  // --done--
+expression(LHS) ::= expression(A) MINUS term_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 12"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorSubtract>(A,B); }  // --done--
 expression(LHS) ::= signed_term_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 13"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
 
-unsigned_expression(LHS) ::= term_expression(A) PLUS unsigned_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 14"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorAdd>(A,B); }  // --done--
-unsigned_expression(LHS) ::= term_expression(A) MINUS unsigned_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 15"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorSubtract>(A,B); }  // --done--
-unsigned_expression(LHS) ::= term_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 16"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
-
 signed_term_expression(LHS) ::= PLUS term_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 17"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
 signed_term_expression(LHS) ::= MINUS term_expression(A). { SCHNEK_TRACE_LOG(5,"Parser: Rule 18"<< toString(A.getType()) << " " << A.getString()); LHS.assignUnaryOperator<expression::OperatorNeg>(A); }  // --done--
 signed_term_expression(LHS) ::= term_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 19"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
 
-term_expression(LHS) ::= exp_expression(A) TIMES term_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 20"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorMultiply>(A,B); }  // --done--
-term_expression(LHS) ::= exp_expression(A) DIVIDE term_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 21"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorDivide>(A,B); }  // --done--
+term_expression(LHS) ::= term_expression(A) TIMES exp_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 20"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorMultiply>(A,B); }  // --done--
+term_expression(LHS) ::= term_expression(A) DIVIDE exp_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 21"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorDivide>(A,B); }  // --done--
 term_expression(LHS) ::= exp_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 22"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
 exp_expression(LHS) ::= atomic_expression(A) EXPONENT signed_atomic_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 23"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorExponent>(A,B); }  // --done--
 exp_expression(LHS) ::= atomic_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 23b"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
diff --git a/src/parser/deckgrammar.inc b/src/parser/deckgrammar.inc
index cd5d02f..42d2212 100644
--- a/src/parser/deckgrammar.inc
+++ b/src/parser/deckgrammar.inc
@@ -60,7 +60,7 @@
 **                       defined, then do no error processing.
 */
 #define YYCODETYPE unsigned char
-#define YYNOCODE 41
+#define YYNOCODE 40
 #define YYACTIONTYPE unsigned char
 #define ParseTOKENTYPE ParserToken
 struct YYMINORTYPE {
@@ -69,7 +69,7 @@ struct YYMINORTYPE {
   YYMINORTYPE(int yyinit_, ParseTOKENTYPE yy0_=ParseTOKENTYPE()) : yyinit(yyinit_), yy0(yy0_) {}
   YYMINORTYPE(ParseTOKENTYPE yy0_=ParseTOKENTYPE()) : yyinit(0), yy0(yy0_) {}
   YYMINORTYPE &operator=(const YYMINORTYPE &rhs) { yyinit = rhs.yyinit; yy0 = rhs.yy0; return *this;}
-  int yy81;
+  int yy79;
 };
 #ifndef YYSTACKDEPTH
 #define YYSTACKDEPTH 100
@@ -78,10 +78,10 @@ struct YYMINORTYPE {
 #define ParseARG_PDECL
 #define ParseARG_FETCH
 #define ParseARG_STORE
-#define YYNSTATE 74
-#define YYNRULE 48
+#define YYNSTATE 69
+#define YYNRULE 45
 #define YYERRORSYMBOL 22
-#define YYERRSYMDT yy81
+#define YYERRSYMDT yy79
 #define YY_NO_ACTION      (YYNSTATE+YYNRULE+2)
 #define YY_ACCEPT_ACTION  (YYNSTATE+YYNRULE+1)
 #define YY_ERROR_ACTION   (YYNSTATE+YYNRULE)
@@ -151,66 +151,63 @@ static const YYMINORTYPE yyzerominor(0);
 **  yy_default[]       Default action for each state.
 */
 static const YYACTIONTYPE yy_action[] = {
- /*     0 */    13,   12,   69,   23,   21,   31,    3,   58,   54,   32,
- /*    10 */    15,   17,   18,    4,   62,   55,   56,   57,   58,   44,
- /*    20 */    32,    1,   13,   12,    4,   16,   55,   56,   57,   58,
- /*    30 */    30,   32,   73,   66,   50,    4,   54,   55,   56,   57,
- /*    40 */     6,    7,   28,   63,   24,   74,   59,   21,   31,   33,
- /*    50 */    22,   54,   27,   37,   35,   19,   68,   23,   21,   31,
- /*    60 */    65,  124,   54,   54,   39,   40,   41,   64,   36,  123,
- /*    70 */     5,   42,   14,  124,   26,   34,   27,   36,   35,   19,
- /*    80 */    43,   14,    2,   26,   34,   60,    9,    8,   39,   40,
- /*    90 */    41,  124,   47,   23,   21,   31,   61,   24,   54,   59,
- /*   100 */    21,   31,   46,   24,   54,   59,   21,   31,   25,   24,
- /*   110 */    54,   59,   21,   31,  124,   58,   54,   32,  124,   29,
- /*   120 */    38,    4,    3,   55,   56,   57,   48,   23,   21,   31,
- /*   130 */    10,   11,   54,   53,   21,   31,  124,  124,   54,   67,
- /*   140 */    21,   31,  124,   71,   54,   49,   21,   31,   71,   70,
- /*   150 */    54,   45,   51,   20,   70,   54,   72,  124,   52,   21,
- /*   160 */    31,  124,  124,   54,
+ /*     0 */     8,    9,   21,   41,   44,   30,   45,   49,   45,   31,
+ /*    10 */    29,    8,    9,    3,   51,   46,   47,   48,   49,   37,
+ /*    20 */    31,    2,   15,   16,    3,   14,   46,   47,   48,   49,
+ /*    30 */    22,   31,   44,   30,    1,    3,   45,   46,   47,   48,
+ /*    40 */    62,  115,    5,   68,   10,   11,   32,   60,   23,   26,
+ /*    50 */    43,   44,   30,   69,   27,   45,   33,   58,   61,   18,
+ /*    60 */    33,   59,   61,   18,   54,   40,   34,   45,   65,   66,
+ /*    70 */    67,  116,   65,   66,   67,   20,   26,   43,   44,   30,
+ /*    80 */     6,    7,   45,   17,   26,   43,   44,   30,   13,   12,
+ /*    90 */    45,   28,   26,   43,   44,   30,  116,  116,   45,   49,
+ /*   100 */    63,   31,   39,   30,  116,    3,   45,   46,   47,   48,
+ /*   110 */    62,   42,   30,   36,   10,   45,   32,   60,   24,   53,
+ /*   120 */    44,   30,   45,  116,   45,   25,   56,   44,   30,  116,
+ /*   130 */    56,   45,   55,  116,   38,   19,   55,  116,   57,  116,
+ /*   140 */     6,    7,   35,   64,  116,    2,  116,    4,  116,  116,
+ /*   150 */    50,  116,  116,  116,   52,
 };
 static const YYCODETYPE yy_lookahead[] = {
- /*     0 */     1,    2,   33,   34,   35,   36,   13,    8,   39,   10,
- /*    10 */     5,    1,    2,   14,   15,   16,   17,   18,    8,    6,
- /*    20 */    10,   14,    1,    2,   14,   12,   16,   17,   18,    8,
- /*    30 */    10,   10,    6,   36,   37,   14,   39,   16,   17,   18,
- /*    40 */     1,    2,    8,   31,   32,    0,   34,   35,   36,    6,
- /*    50 */    38,   39,    7,   11,    9,   10,   33,   34,   35,   36,
- /*    60 */    36,   40,   39,   39,   19,   20,   21,   15,   22,   23,
- /*    70 */    24,   25,   26,   40,   28,   29,    7,   22,    9,   10,
- /*    80 */    25,   26,   12,   28,   29,   15,    1,    2,   19,   20,
- /*    90 */    21,   40,   33,   34,   35,   36,   31,   32,   39,   34,
- /*   100 */    35,   36,   31,   32,   39,   34,   35,   36,   31,   32,
- /*   110 */    39,   34,   35,   36,   40,    8,   39,   10,   40,   10,
- /*   120 */    11,   14,   13,   16,   17,   18,   33,   34,   35,   36,
- /*   130 */     3,    4,   39,   34,   35,   36,   40,   40,   39,   34,
- /*   140 */    35,   36,   40,   22,   39,   34,   35,   36,   22,   28,
- /*   150 */    39,   30,   36,   27,   28,   39,   30,   40,   34,   35,
- /*   160 */    36,   40,   40,   39,
+ /*     0 */     1,    2,   32,   35,   34,   35,   38,    8,   38,   10,
+ /*    10 */    10,    1,    2,   14,   15,   16,   17,   18,    8,    6,
+ /*    20 */    10,   13,    1,    2,   14,   12,   16,   17,   18,    8,
+ /*    30 */    32,   10,   34,   35,   14,   14,   38,   16,   17,   18,
+ /*    40 */    22,   23,   24,   25,   26,    5,   28,   29,   31,   32,
+ /*    50 */    33,   34,   35,    0,   37,   38,    7,    6,    9,   10,
+ /*    60 */     7,    6,    9,   10,   35,   36,    8,   38,   19,   20,
+ /*    70 */    21,   39,   19,   20,   21,   31,   32,   33,   34,   35,
+ /*    80 */     1,    2,   38,   31,   32,   33,   34,   35,    3,    4,
+ /*    90 */    38,   31,   32,   33,   34,   35,   39,   39,   38,    8,
+ /*   100 */    11,   10,   34,   35,   39,   14,   38,   16,   17,   18,
+ /*   110 */    22,   34,   35,   25,   26,   38,   28,   29,   32,   35,
+ /*   120 */    34,   35,   38,   39,   38,   32,   22,   34,   35,   39,
+ /*   130 */    22,   38,   28,   39,   30,   27,   28,   39,   30,   39,
+ /*   140 */     1,    2,   10,   11,   39,   13,   39,   12,   39,   39,
+ /*   150 */    15,   39,   39,   39,   15,
 };
-#define YY_SHIFT_USE_DFLT (-8)
-#define YY_SHIFT_MAX 32
-static const signed char yy_shift_ofst[] = {
- /*     0 */    69,   -1,   21,   21,   21,   45,  107,  107,  107,  107,
- /*    10 */   107,  107,  107,  107,   20,   10,   20,  107,  107,  109,
- /*    20 */    13,  127,   70,   39,   85,   52,   26,   34,   43,   42,
- /*    30 */    -7,    5,    7,
+#define YY_SHIFT_USE_DFLT (-2)
+#define YY_SHIFT_MAX 35
+static const short yy_shift_ofst[] = {
+ /*     0 */    49,   -1,   10,   10,   10,   53,   91,   91,   91,   91,
+ /*    10 */     0,   21,   91,   91,    0,   91,   91,  139,  132,   13,
+ /*    20 */    79,   85,   85,   79,   85,   85,   85,  135,   79,    8,
+ /*    30 */    40,   20,   51,   58,   55,   89,
 };
-#define YY_REDUCE_USE_DFLT (-32)
-#define YY_REDUCE_MAX 18
+#define YY_REDUCE_USE_DFLT (-33)
+#define YY_REDUCE_MAX 16
 static const signed char yy_reduce_ofst[] = {
- /*     0 */    46,   12,   65,   71,   77,   55,   93,   23,  -31,   59,
- /*    10 */   105,  111,   99,  124,  126,   -3,  121,  116,   24,
+ /*     0 */    18,   17,   44,   52,   60,   88,  -30,   -2,   86,   93,
+ /*    10 */   108,   29,   68,   77,  104,  -32,   84,
 };
 static const YYACTIONTYPE yy_default[] = {
- /*     0 */   122,  122,  122,  122,  122,  122,  122,  122,  122,  122,
- /*    10 */   122,  122,  122,  122,  122,  122,  122,  122,  122,  122,
- /*    20 */   122,  102,  122,   96,   93,  122,  122,  122,  122,  122,
- /*    30 */    87,  104,  115,   79,   80,   81,   82,   83,   84,  119,
- /*    40 */   120,  121,   76,   75,   77,   85,   90,   91,   94,  100,
- /*    50 */   103,  105,   97,   98,  111,  114,  116,  117,  118,   99,
- /*    60 */   109,  112,  110,  113,  108,  106,  107,  101,   95,   92,
- /*    70 */    88,   89,   86,   78,
+ /*     0 */   114,  114,  114,  114,  114,  114,  114,  114,  114,  114,
+ /*    10 */   114,  114,  114,  114,  114,  114,  114,  114,  114,  114,
+ /*    20 */    85,   86,   87,  105,   89,   90,   91,  114,  104,   82,
+ /*    30 */    96,  107,  114,  114,  114,  114,   70,   72,   80,   92,
+ /*    40 */    95,   97,   93,   88,   94,  103,  106,  108,  109,  110,
+ /*    50 */   101,  102,  100,   98,   99,   83,   84,   81,   73,   74,
+ /*    60 */    75,   76,   77,   78,   79,  111,  112,  113,   71,
 };
 #define YY_SZ_ACTTAB (int)(sizeof(yy_action)/sizeof(yy_action[0]))
 
@@ -312,8 +309,8 @@ static const char *const yyTokenName[] = {
   "FLOAT_DECL",    "STRING_DECL",   "error",         "deck",        
   "statementlist",  "statement",     "typedecl",      "decllist",    
   "assignment",    "startblock",    "declaration",   "expression",  
-  "signed_term_expression",  "unsigned_expression",  "term_expression",  "exp_expression",
-  "atomic_expression",  "signed_atomic_expression",  "expressionlist",  "value",       
+  "term_expression",  "signed_term_expression",  "exp_expression",  "atomic_expression",
+  "signed_atomic_expression",  "expressionlist",  "value",       
 };
 #endif /* NDEBUG */
 
@@ -338,37 +335,34 @@ static const char *const yyRuleName[] = {
  /*  14 */ "declaration ::= assignment",
  /*  15 */ "declaration ::= error",
  /*  16 */ "assignment ::= IDENTIFIER EQUAL expression",
- /*  17 */ "expression ::= signed_term_expression PLUS unsigned_expression",
- /*  18 */ "expression ::= signed_term_expression MINUS unsigned_expression",
+ /*  17 */ "expression ::= expression PLUS term_expression",
+ /*  18 */ "expression ::= expression MINUS term_expression",
  /*  19 */ "expression ::= signed_term_expression",
- /*  20 */ "unsigned_expression ::= term_expression PLUS unsigned_expression",
- /*  21 */ "unsigned_expression ::= term_expression MINUS unsigned_expression",
- /*  22 */ "unsigned_expression ::= term_expression",
- /*  23 */ "signed_term_expression ::= PLUS term_expression",
- /*  24 */ "signed_term_expression ::= MINUS term_expression",
- /*  25 */ "signed_term_expression ::= term_expression",
- /*  26 */ "term_expression ::= exp_expression TIMES term_expression",
- /*  27 */ "term_expression ::= exp_expression DIVIDE term_expression",
- /*  28 */ "term_expression ::= exp_expression",
- /*  29 */ "exp_expression ::= atomic_expression EXPONENT signed_atomic_expression",
- /*  30 */ "exp_expression ::= atomic_expression",
- /*  31 */ "signed_atomic_expression ::= PLUS atomic_expression",
- /*  32 */ "signed_atomic_expression ::= MINUS atomic_expression",
- /*  33 */ "signed_atomic_expression ::= atomic_expression",
- /*  34 */ "atomic_expression ::= LBRACKET expression RBRACKET",
- /*  35 */ "atomic_expression ::= IDENTIFIER LBRACKET expressionlist RBRACKET",
- /*  36 */ "atomic_expression ::= IDENTIFIER LBRACKET RBRACKET",
- /*  37 */ "atomic_expression ::= value",
- /*  38 */ "expressionlist ::= expressionlist COMMA expression",
- /*  39 */ "expressionlist ::= expression",
- /*  40 */ "value ::= PATHIDENTIFIER",
- /*  41 */ "value ::= IDENTIFIER",
- /*  42 */ "value ::= INTEGER",
- /*  43 */ "value ::= FLOAT",
- /*  44 */ "value ::= STRING",
- /*  45 */ "typedecl ::= INT_DECL",
- /*  46 */ "typedecl ::= FLOAT_DECL",
- /*  47 */ "typedecl ::= STRING_DECL",
+ /*  20 */ "signed_term_expression ::= PLUS term_expression",
+ /*  21 */ "signed_term_expression ::= MINUS term_expression",
+ /*  22 */ "signed_term_expression ::= term_expression",
+ /*  23 */ "term_expression ::= term_expression TIMES exp_expression",
+ /*  24 */ "term_expression ::= term_expression DIVIDE exp_expression",
+ /*  25 */ "term_expression ::= exp_expression",
+ /*  26 */ "exp_expression ::= atomic_expression EXPONENT signed_atomic_expression",
+ /*  27 */ "exp_expression ::= atomic_expression",
+ /*  28 */ "signed_atomic_expression ::= PLUS atomic_expression",
+ /*  29 */ "signed_atomic_expression ::= MINUS atomic_expression",
+ /*  30 */ "signed_atomic_expression ::= atomic_expression",
+ /*  31 */ "atomic_expression ::= LBRACKET expression RBRACKET",
+ /*  32 */ "atomic_expression ::= IDENTIFIER LBRACKET expressionlist RBRACKET",
+ /*  33 */ "atomic_expression ::= IDENTIFIER LBRACKET RBRACKET",
+ /*  34 */ "atomic_expression ::= value",
+ /*  35 */ "expressionlist ::= expressionlist COMMA expression",
+ /*  36 */ "expressionlist ::= expression",
+ /*  37 */ "value ::= PATHIDENTIFIER",
+ /*  38 */ "value ::= IDENTIFIER",
+ /*  39 */ "value ::= INTEGER",
+ /*  40 */ "value ::= FLOAT",
+ /*  41 */ "value ::= STRING",
+ /*  42 */ "typedecl ::= INT_DECL",
+ /*  43 */ "typedecl ::= FLOAT_DECL",
+ /*  44 */ "typedecl ::= STRING_DECL",
 };
 #endif /* NDEBUG */
 
@@ -691,31 +685,28 @@ static const struct {
   { 31, 3 },
   { 31, 3 },
   { 31, 1 },
-  { 33, 3 },
-  { 33, 3 },
+  { 33, 2 },
+  { 33, 2 },
   { 33, 1 },
-  { 32, 2 },
-  { 32, 2 },
+  { 32, 3 },
+  { 32, 3 },
   { 32, 1 },
   { 34, 3 },
-  { 34, 3 },
   { 34, 1 },
+  { 36, 2 },
+  { 36, 2 },
+  { 36, 1 },
+  { 35, 3 },
+  { 35, 4 },
   { 35, 3 },
   { 35, 1 },
-  { 37, 2 },
-  { 37, 2 },
+  { 37, 3 },
   { 37, 1 },
-  { 36, 3 },
-  { 36, 4 },
-  { 36, 3 },
-  { 36, 1 },
-  { 38, 3 },
   { 38, 1 },
-  { 39, 1 },
-  { 39, 1 },
-  { 39, 1 },
-  { 39, 1 },
-  { 39, 1 },
+  { 38, 1 },
+  { 38, 1 },
+  { 38, 1 },
+  { 38, 1 },
   { 26, 1 },
   { 26, 1 },
   { 26, 1 },
@@ -776,207 +767,192 @@ static void yy_reduce(
       case 3: /* statement ::= typedecl decllist SEMICOLON */
 #line 26 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 1"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yymsp[-1].minor.yy0.storeVariable(yymsp[-2].minor.yy0); }
-#line 780 "deckgrammar.c"
+#line 771 "deckgrammar.c"
         break;
       case 4: /* statement ::= assignment SEMICOLON */
 #line 27 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 2"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yymsp[-1].minor.yy0.updateVariable(); }
-#line 785 "deckgrammar.c"
+#line 776 "deckgrammar.c"
         break;
       case 7: /* statement ::= RBRACE */
 #line 30 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 3"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yymsp[0].minor.yy0.endBlock(); }
-#line 790 "deckgrammar.c"
+#line 781 "deckgrammar.c"
         break;
       case 9: /* startblock ::= IDENTIFIER IDENTIFIER LBRACE */
 #line 33 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 4"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yymsp[-2].minor.yy0.createBlock(yymsp[-1].minor.yy0); }
-#line 795 "deckgrammar.c"
+#line 786 "deckgrammar.c"
         break;
       case 10: /* startblock ::= IDENTIFIER LBRACE */
 #line 34 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 5"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yymsp[-1].minor.yy0.createBlock(yymsp[-1].minor.yy0); }
-#line 800 "deckgrammar.c"
+#line 791 "deckgrammar.c"
         break;
       case 11: /* decllist ::= decllist COMMA declaration */
 #line 36 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 6"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yymsp[0].minor.yy0.append(yymsp[-2].minor.yy0); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 805 "deckgrammar.c"
+#line 796 "deckgrammar.c"
         break;
       case 12: /* decllist ::= declaration */
 #line 37 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 7"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 810 "deckgrammar.c"
+#line 801 "deckgrammar.c"
         break;
       case 13: /* declaration ::= IDENTIFIER */
 #line 39 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 8"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 815 "deckgrammar.c"
+#line 806 "deckgrammar.c"
         break;
       case 14: /* declaration ::= assignment */
 #line 40 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 9"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 820 "deckgrammar.c"
+#line 811 "deckgrammar.c"
         break;
       case 16: /* assignment ::= IDENTIFIER EQUAL expression */
 #line 43 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 10"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.evaluateExpression(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 825 "deckgrammar.c"
+#line 816 "deckgrammar.c"
         break;
-      case 17: /* expression ::= signed_term_expression PLUS unsigned_expression */
+      case 17: /* expression ::= expression PLUS term_expression */
 #line 45 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 11"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorAdd>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 830 "deckgrammar.c"
+#line 821 "deckgrammar.c"
         break;
-      case 18: /* expression ::= signed_term_expression MINUS unsigned_expression */
+      case 18: /* expression ::= expression MINUS term_expression */
 #line 46 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 12"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorSubtract>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 835 "deckgrammar.c"
+#line 826 "deckgrammar.c"
         break;
       case 19: /* expression ::= signed_term_expression */
 #line 47 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 13"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 840 "deckgrammar.c"
+#line 831 "deckgrammar.c"
         break;
-      case 20: /* unsigned_expression ::= term_expression PLUS unsigned_expression */
+      case 20: /* signed_term_expression ::= PLUS term_expression */
 #line 49 "deckgrammar.y"
-{ SCHNEK_TRACE_LOG(5,"Parser: Rule 14"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorAdd>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 845 "deckgrammar.c"
-        break;
-      case 21: /* unsigned_expression ::= term_expression MINUS unsigned_expression */
-#line 50 "deckgrammar.y"
-{ SCHNEK_TRACE_LOG(5,"Parser: Rule 15"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorSubtract>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 850 "deckgrammar.c"
-        break;
-      case 22: /* unsigned_expression ::= term_expression */
-#line 51 "deckgrammar.y"
-{ SCHNEK_TRACE_LOG(5,"Parser: Rule 16"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 855 "deckgrammar.c"
-        break;
-      case 23: /* signed_term_expression ::= PLUS term_expression */
-#line 53 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 17"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 860 "deckgrammar.c"
+#line 836 "deckgrammar.c"
         break;
-      case 24: /* signed_term_expression ::= MINUS term_expression */
-#line 54 "deckgrammar.y"
+      case 21: /* signed_term_expression ::= MINUS term_expression */
+#line 50 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 18"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorNeg>(yymsp[0].minor.yy0); }
-#line 865 "deckgrammar.c"
+#line 841 "deckgrammar.c"
         break;
-      case 25: /* signed_term_expression ::= term_expression */
-#line 55 "deckgrammar.y"
+      case 22: /* signed_term_expression ::= term_expression */
+#line 51 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 19"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 870 "deckgrammar.c"
+#line 846 "deckgrammar.c"
         break;
-      case 26: /* term_expression ::= exp_expression TIMES term_expression */
-#line 57 "deckgrammar.y"
+      case 23: /* term_expression ::= term_expression TIMES exp_expression */
+#line 53 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 20"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorMultiply>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 875 "deckgrammar.c"
+#line 851 "deckgrammar.c"
         break;
-      case 27: /* term_expression ::= exp_expression DIVIDE term_expression */
-#line 58 "deckgrammar.y"
+      case 24: /* term_expression ::= term_expression DIVIDE exp_expression */
+#line 54 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 21"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorDivide>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 880 "deckgrammar.c"
+#line 856 "deckgrammar.c"
         break;
-      case 28: /* term_expression ::= exp_expression */
-#line 59 "deckgrammar.y"
+      case 25: /* term_expression ::= exp_expression */
+#line 55 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 22"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 885 "deckgrammar.c"
+#line 861 "deckgrammar.c"
         break;
-      case 29: /* exp_expression ::= atomic_expression EXPONENT signed_atomic_expression */
-#line 60 "deckgrammar.y"
+      case 26: /* exp_expression ::= atomic_expression EXPONENT signed_atomic_expression */
+#line 56 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 23"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorExponent>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 890 "deckgrammar.c"
+#line 866 "deckgrammar.c"
         break;
-      case 30: /* exp_expression ::= atomic_expression */
-#line 61 "deckgrammar.y"
+      case 27: /* exp_expression ::= atomic_expression */
+#line 57 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 23b"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 895 "deckgrammar.c"
+#line 871 "deckgrammar.c"
         break;
-      case 31: /* signed_atomic_expression ::= PLUS atomic_expression */
-#line 63 "deckgrammar.y"
+      case 28: /* signed_atomic_expression ::= PLUS atomic_expression */
+#line 59 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 24"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 900 "deckgrammar.c"
+#line 876 "deckgrammar.c"
         break;
-      case 32: /* signed_atomic_expression ::= MINUS atomic_expression */
-#line 64 "deckgrammar.y"
+      case 29: /* signed_atomic_expression ::= MINUS atomic_expression */
+#line 60 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 25"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorNeg>(yymsp[0].minor.yy0); }
-#line 905 "deckgrammar.c"
+#line 881 "deckgrammar.c"
         break;
-      case 33: /* signed_atomic_expression ::= atomic_expression */
-#line 65 "deckgrammar.y"
+      case 30: /* signed_atomic_expression ::= atomic_expression */
+#line 61 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 26"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 910 "deckgrammar.c"
+#line 886 "deckgrammar.c"
         break;
-      case 34: /* atomic_expression ::= LBRACKET expression RBRACKET */
-#line 67 "deckgrammar.y"
+      case 31: /* atomic_expression ::= LBRACKET expression RBRACKET */
+#line 63 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 27"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorId>(yymsp[-1].minor.yy0); }
-#line 915 "deckgrammar.c"
+#line 891 "deckgrammar.c"
         break;
-      case 35: /* atomic_expression ::= IDENTIFIER LBRACKET expressionlist RBRACKET */
-#line 68 "deckgrammar.y"
+      case 32: /* atomic_expression ::= IDENTIFIER LBRACKET expressionlist RBRACKET */
+#line 64 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 28"<< toString(yymsp[-3].minor.yy0.getType()) << " " << yymsp[-3].minor.yy0.getString()<< " "<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yygotominor.yy0.assignFunction(yymsp[-3].minor.yy0,yymsp[-1].minor.yy0); }
-#line 920 "deckgrammar.c"
+#line 896 "deckgrammar.c"
         break;
-      case 36: /* atomic_expression ::= IDENTIFIER LBRACKET RBRACKET */
-#line 69 "deckgrammar.y"
+      case 33: /* atomic_expression ::= IDENTIFIER LBRACKET RBRACKET */
+#line 65 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 28b"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignFunction(yymsp[-2].minor.yy0); }
-#line 925 "deckgrammar.c"
+#line 901 "deckgrammar.c"
         break;
-      case 37: /* atomic_expression ::= value */
-#line 71 "deckgrammar.y"
+      case 34: /* atomic_expression ::= value */
+#line 67 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 29"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorId>(yymsp[0].minor.yy0); }
-#line 930 "deckgrammar.c"
+#line 906 "deckgrammar.c"
         break;
-      case 38: /* expressionlist ::= expressionlist COMMA expression */
-#line 73 "deckgrammar.y"
+      case 35: /* expressionlist ::= expressionlist COMMA expression */
+#line 69 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 30"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yymsp[0].minor.yy0.append(yymsp[-2].minor.yy0); yygotominor.yy0=yymsp[0].minor.yy0; }
-#line 935 "deckgrammar.c"
+#line 911 "deckgrammar.c"
         break;
-      case 39: /* expressionlist ::= expression */
-#line 74 "deckgrammar.y"
+      case 36: /* expressionlist ::= expression */
+#line 70 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 31"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; yygotominor.yy0.makeExpressionList(); }
-#line 940 "deckgrammar.c"
+#line 916 "deckgrammar.c"
         break;
-      case 40: /* value ::= PATHIDENTIFIER */
-#line 76 "deckgrammar.y"
+      case 37: /* value ::= PATHIDENTIFIER */
+#line 72 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 32"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignIdentifier(yymsp[0].minor.yy0); }
-#line 945 "deckgrammar.c"
+#line 921 "deckgrammar.c"
         break;
-      case 41: /* value ::= IDENTIFIER */
-#line 77 "deckgrammar.y"
+      case 38: /* value ::= IDENTIFIER */
+#line 73 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 33"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignIdentifier(yymsp[0].minor.yy0); }
-#line 950 "deckgrammar.c"
+#line 926 "deckgrammar.c"
         break;
-      case 42: /* value ::= INTEGER */
-#line 78 "deckgrammar.y"
+      case 39: /* value ::= INTEGER */
+#line 74 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 34"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignInteger(yymsp[0].minor.yy0); }
-#line 955 "deckgrammar.c"
+#line 931 "deckgrammar.c"
         break;
-      case 43: /* value ::= FLOAT */
-#line 79 "deckgrammar.y"
+      case 40: /* value ::= FLOAT */
+#line 75 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 35"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignFloat(yymsp[0].minor.yy0); }
-#line 960 "deckgrammar.c"
+#line 936 "deckgrammar.c"
         break;
-      case 44: /* value ::= STRING */
-#line 80 "deckgrammar.y"
+      case 41: /* value ::= STRING */
+#line 76 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 36"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignString(yymsp[0].minor.yy0); }
-#line 965 "deckgrammar.c"
+#line 941 "deckgrammar.c"
         break;
-      case 45: /* typedecl ::= INT_DECL */
-#line 82 "deckgrammar.y"
+      case 42: /* typedecl ::= INT_DECL */
+#line 78 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 37"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 970 "deckgrammar.c"
+#line 946 "deckgrammar.c"
         break;
-      case 46: /* typedecl ::= FLOAT_DECL */
-#line 83 "deckgrammar.y"
+      case 43: /* typedecl ::= FLOAT_DECL */
+#line 79 "deckgrammar.y"
 {  SCHNEK_TRACE_LOG(5,"Parser: Rule 38"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 975 "deckgrammar.c"
+#line 951 "deckgrammar.c"
         break;
-      case 47: /* typedecl ::= STRING_DECL */
-#line 84 "deckgrammar.y"
+      case 44: /* typedecl ::= STRING_DECL */
+#line 80 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 39 "<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 980 "deckgrammar.c"
+#line 956 "deckgrammar.c"
         break;
       default:
       /* (0) deck ::= statementlist */ yytestcase(yyruleno==0);
@@ -1048,7 +1024,7 @@ static void yy_syntax_error(
 #line 17 "deckgrammar.y"
 
   throw ParserInternalError();
-#line 1052 "deckgrammar.c"
+#line 1028 "deckgrammar.c"
   ParseARG_STORE; /* Suppress warning about unused %extra_argument variable */
 }
 
-- 
2.43.0


From 6e15666dc15546319b4380d647e881eb6ae6bb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:29 +0000
Subject: [PATCH 20/48] fix: report expressions that are nested too deeply

---
 parser/deckgrammar.y       |   4 +
 src/parser/deckgrammar.inc | 158 +++++++++++++++++++------------------
 2 files changed, 85 insertions(+), 77 deletions(-)

diff --git a/parser/deckgrammar.y b/parser/deckgrammar.y
index 078dbcb..6d62605 100644
--- a/parser/deckgrammar.y
+++ b/parser/deckgrammar.y
@@ -18,6 +18,10 @@
   throw ParserInternalError();
 }
 
+%stack_overflow {
+  throw ParserInternalError();
+}
+
 deck ::= statementlist. // --done--
 
 statementlist ::= statementlist statement. // --done--
diff --git a/src/parser/deckgrammar.inc b/src/parser/deckgrammar.inc
index 42d2212..0485fd8 100644
--- a/src/parser/deckgrammar.inc
+++ b/src/parser/deckgrammar.inc
@@ -609,6 +609,10 @@ static void yyStackOverflow(yyParser *yypParser, YYMINORTYPE *yypMinor){
    while( yypParser->yyidx>=0 ) yy_pop_parser_stack(yypParser);
    /* Here code is inserted which will execute if the parser
    ** stack every overflows */
+#line 21 "deckgrammar.y"
+
+  throw ParserInternalError();
+#line 616 "deckgrammar.c"
    ParseARG_STORE; /* Suppress warning about unused %extra_argument var */
 }
 
@@ -765,194 +769,194 @@ static void yy_reduce(
   **     break;
   */
       case 3: /* statement ::= typedecl decllist SEMICOLON */
-#line 26 "deckgrammar.y"
+#line 30 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 1"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yymsp[-1].minor.yy0.storeVariable(yymsp[-2].minor.yy0); }
-#line 771 "deckgrammar.c"
+#line 775 "deckgrammar.c"
         break;
       case 4: /* statement ::= assignment SEMICOLON */
-#line 27 "deckgrammar.y"
+#line 31 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 2"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yymsp[-1].minor.yy0.updateVariable(); }
-#line 776 "deckgrammar.c"
+#line 780 "deckgrammar.c"
         break;
       case 7: /* statement ::= RBRACE */
-#line 30 "deckgrammar.y"
+#line 34 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 3"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yymsp[0].minor.yy0.endBlock(); }
-#line 781 "deckgrammar.c"
+#line 785 "deckgrammar.c"
         break;
       case 9: /* startblock ::= IDENTIFIER IDENTIFIER LBRACE */
-#line 33 "deckgrammar.y"
+#line 37 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 4"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yymsp[-2].minor.yy0.createBlock(yymsp[-1].minor.yy0); }
-#line 786 "deckgrammar.c"
+#line 790 "deckgrammar.c"
         break;
       case 10: /* startblock ::= IDENTIFIER LBRACE */
-#line 34 "deckgrammar.y"
+#line 38 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 5"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yymsp[-1].minor.yy0.createBlock(yymsp[-1].minor.yy0); }
-#line 791 "deckgrammar.c"
+#line 795 "deckgrammar.c"
         break;
       case 11: /* decllist ::= decllist COMMA declaration */
-#line 36 "deckgrammar.y"
+#line 40 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 6"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yymsp[0].minor.yy0.append(yymsp[-2].minor.yy0); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 796 "deckgrammar.c"
+#line 800 "deckgrammar.c"
         break;
       case 12: /* decllist ::= declaration */
-#line 37 "deckgrammar.y"
+#line 41 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 7"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 801 "deckgrammar.c"
+#line 805 "deckgrammar.c"
         break;
       case 13: /* declaration ::= IDENTIFIER */
-#line 39 "deckgrammar.y"
+#line 43 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 8"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 806 "deckgrammar.c"
+#line 810 "deckgrammar.c"
         break;
       case 14: /* declaration ::= assignment */
-#line 40 "deckgrammar.y"
+#line 44 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 9"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 811 "deckgrammar.c"
+#line 815 "deckgrammar.c"
         break;
       case 16: /* assignment ::= IDENTIFIER EQUAL expression */
-#line 43 "deckgrammar.y"
+#line 47 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 10"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.evaluateExpression(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 816 "deckgrammar.c"
+#line 820 "deckgrammar.c"
         break;
       case 17: /* expression ::= expression PLUS term_expression */
-#line 45 "deckgrammar.y"
+#line 49 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 11"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorAdd>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 821 "deckgrammar.c"
+#line 825 "deckgrammar.c"
         break;
       case 18: /* expression ::= expression MINUS term_expression */
-#line 46 "deckgrammar.y"
+#line 50 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 12"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorSubtract>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 826 "deckgrammar.c"
+#line 830 "deckgrammar.c"
         break;
       case 19: /* expression ::= signed_term_expression */
-#line 47 "deckgrammar.y"
+#line 51 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 13"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 831 "deckgrammar.c"
+#line 835 "deckgrammar.c"
         break;
       case 20: /* signed_term_expression ::= PLUS term_expression */
-#line 49 "deckgrammar.y"
+#line 53 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 17"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 836 "deckgrammar.c"
+#line 840 "deckgrammar.c"
         break;
       case 21: /* signed_term_expression ::= MINUS term_expression */
-#line 50 "deckgrammar.y"
+#line 54 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 18"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorNeg>(yymsp[0].minor.yy0); }
-#line 841 "deckgrammar.c"
+#line 845 "deckgrammar.c"
         break;
       case 22: /* signed_term_expression ::= term_expression */
-#line 51 "deckgrammar.y"
+#line 55 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 19"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 846 "deckgrammar.c"
+#line 850 "deckgrammar.c"
         break;
       case 23: /* term_expression ::= term_expression TIMES exp_expression */
-#line 53 "deckgrammar.y"
+#line 57 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 20"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorMultiply>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 851 "deckgrammar.c"
+#line 855 "deckgrammar.c"
         break;
       case 24: /* term_expression ::= term_expression DIVIDE exp_expression */
-#line 54 "deckgrammar.y"
+#line 58 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 21"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorDivide>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 856 "deckgrammar.c"
+#line 860 "deckgrammar.c"
         break;
       case 25: /* term_expression ::= exp_expression */
-#line 55 "deckgrammar.y"
+#line 59 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 22"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 861 "deckgrammar.c"
+#line 865 "deckgrammar.c"
         break;
       case 26: /* exp_expression ::= atomic_expression EXPONENT signed_atomic_expression */
-#line 56 "deckgrammar.y"
+#line 60 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 23"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorExponent>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 866 "deckgrammar.c"
+#line 870 "deckgrammar.c"
         break;
       case 27: /* exp_expression ::= atomic_expression */
-#line 57 "deckgrammar.y"
+#line 61 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 23b"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 871 "deckgrammar.c"
+#line 875 "deckgrammar.c"
         break;
       case 28: /* signed_atomic_expression ::= PLUS atomic_expression */
-#line 59 "deckgrammar.y"
+#line 63 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 24"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 876 "deckgrammar.c"
+#line 880 "deckgrammar.c"
         break;
       case 29: /* signed_atomic_expression ::= MINUS atomic_expression */
-#line 60 "deckgrammar.y"
+#line 64 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 25"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorNeg>(yymsp[0].minor.yy0); }
-#line 881 "deckgrammar.c"
+#line 885 "deckgrammar.c"
         break;
       case 30: /* signed_atomic_expression ::= atomic_expression */
-#line 61 "deckgrammar.y"
+#line 65 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 26"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 886 "deckgrammar.c"
+#line 890 "deckgrammar.c"
         break;
       case 31: /* atomic_expression ::= LBRACKET expression RBRACKET */
-#line 63 "deckgrammar.y"
+#line 67 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 27"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorId>(yymsp[-1].minor.yy0); }
-#line 891 "deckgrammar.c"
+#line 895 "deckgrammar.c"
         break;
       case 32: /* atomic_expression ::= IDENTIFIER LBRACKET expressionlist RBRACKET */
-#line 64 "deckgrammar.y"
+#line 68 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 28"<< toString(yymsp[-3].minor.yy0.getType()) << " " << yymsp[-3].minor.yy0.getString()<< " "<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yygotominor.yy0.assignFunction(yymsp[-3].minor.yy0,yymsp[-1].minor.yy0); }
-#line 896 "deckgrammar.c"
+#line 900 "deckgrammar.c"
         break;
       case 33: /* atomic_expression ::= IDENTIFIER LBRACKET RBRACKET */
-#line 65 "deckgrammar.y"
+#line 69 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 28b"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignFunction(yymsp[-2].minor.yy0); }
-#line 901 "deckgrammar.c"
+#line 905 "deckgrammar.c"
         break;
       case 34: /* atomic_expression ::= value */
-#line 67 "deckgrammar.y"
+#line 71 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 29"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorId>(yymsp[0].minor.yy0); }
-#line 906 "deckgrammar.c"
+#line 910 "deckgrammar.c"
         break;
       case 35: /* expressionlist ::= expressionlist COMMA expression */
-#line 69 "deckgrammar.y"
+#line 73 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 30"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yymsp[0].minor.yy0.append(yymsp[-2].minor.yy0); yygotominor.yy0=yymsp[0].minor.yy0; }
-#line 911 "deckgrammar.c"
+#line 915 "deckgrammar.c"
         break;
       case 36: /* expressionlist ::= expression */
-#line 70 "deckgrammar.y"
+#line 74 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 31"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; yygotominor.yy0.makeExpressionList(); }
-#line 916 "deckgrammar.c"
+#line 920 "deckgrammar.c"
         break;
       case 37: /* value ::= PATHIDENTIFIER */
-#line 72 "deckgrammar.y"
+#line 76 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 32"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignIdentifier(yymsp[0].minor.yy0); }
-#line 921 "deckgrammar.c"
+#line 925 "deckgrammar.c"
         break;
       case 38: /* value ::= IDENTIFIER */
-#line 73 "deckgrammar.y"
+#line 77 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 33"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignIdentifier(yymsp[0].minor.yy0); }
-#line 926 "deckgrammar.c"
+#line 930 "deckgrammar.c"
         break;
       case 39: /* value ::= INTEGER */
-#line 74 "deckgrammar.y"
+#line 78 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 34"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignInteger(yymsp[0].minor.yy0); }
-#line 931 "deckgrammar.c"
+#line 935 "deckgrammar.c"
         break;
       case 40: /* value ::= FLOAT */
-#line 75 "deckgrammar.y"
+#line 79 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 35"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignFloat(yymsp[0].minor.yy0); }
-#line 936 "deckgrammar.c"
+#line 940 "deckgrammar.c"
         break;
       case 41: /* value ::= STRING */
-#line 76 "deckgrammar.y"
+#line 80 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 36"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignString(yymsp[0].minor.yy0); }
-#line 941 "deckgrammar.c"
+#line 945 "deckgrammar.c"
         break;
       case 42: /* typedecl ::= INT_DECL */
-#line 78 "deckgrammar.y"
+#line 82 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 37"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 946 "deckgrammar.c"
+#line 950 "deckgrammar.c"
         break;
       case 43: /* typedecl ::= FLOAT_DECL */
-#line 79 "deckgrammar.y"
+#line 83 "deckgrammar.y"
 {  SCHNEK_TRACE_LOG(5,"Parser: Rule 38"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 951 "deckgrammar.c"
+#line 955 "deckgrammar.c"
         break;
       case 44: /* typedecl ::= STRING_DECL */
-#line 80 "deckgrammar.y"
+#line 84 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 39 "<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 956 "deckgrammar.c"
+#line 960 "deckgrammar.c"
         break;
       default:
       /* (0) deck ::= statementlist */ yytestcase(yyruleno==0);
@@ -1024,7 +1028,7 @@ static void yy_syntax_error(
 #line 17 "deckgrammar.y"
 
   throw ParserInternalError();
-#line 1028 "deckgrammar.c"
+#line 1032 "deckgrammar.c"
   ParseARG_STORE; /* Suppress warning about unused %extra_argument variable */
 }
 
-- 
2.43.0


From a999ea35caeb082c68e3c8860871fdec53782279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:29 +0000
Subject: [PATCH 21/48] fix: report a syntax error at the end of the file

---
 src/parser/parser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.cpp b/src/parser/parser.cpp
index e2fc8df..57d0210 100644
--- a/src/parser/parser.cpp
+++ b/src/parser/parser.cpp
@@ -80,8 +80,10 @@ pBlock Parser::parse(std::istream &input, std::string filename)
     context.blockTree->moveDown();
   }
 
+  Token lastTok(filename, 1, 0);
   for(Token tok: tokens)
   {
+    lastTok = tok;
     try{
       Parse(pParser, tok.getToken(), ParserToken(tok, context));
     }
@@ -90,7 +92,12 @@ pBlock Parser::parse(std::istream &input, std::string filename)
     }
   }
 
-  Parse(pParser, 0, ParserToken());
+  try{
+    Parse(pParser, 0, ParserToken());
+  }
+  catch (ParserInternalError & e) {
+    throw ParserError("Syntax Error", lastTok);
+  }
 
   ParseFree(pParser);
 
-- 
2.43.0


From 985ac6910278b949ef5947e17d4d02093d7e51c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:29 +0000
Subject: [PATCH 22/48] fix: report numbers that can not be represented

---
 src/parser/parsertoken.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/parser/parsertoken.cpp b/src/parser/parsertoken.cpp
index 14db956..2c0a831 100644
--- a/src/parser/parsertoken.cpp
+++ b/src/parser/parsertoken.cpp
@@ -96,8 +96,15 @@ void ParserToken::assignInteger(ParserToken &parTok)
   if (parTok.getType() != atom) throw ParserError("Can't convert non-atom token to integer", atomTok);
   if (atomTok.getToken() != INTEGER) throw ParserError("Can't convert non-integer atom to integer", atomTok);
 
-  pIntExpression pI(new Value<int>(boost::lexical_cast<int>(atomTok.getString())));
-  data = pI;
+  try
+  {
+    pIntExpression pI(new Value<int>(boost::lexical_cast<int>(atomTok.getString())));
+    data = pI;
+  }
+  catch (boost::bad_lexical_cast&)
+  {
+    throw ParserError("Invalid integer '"+atomTok.getString()+"'", atomTok);
+  }
   type = int_type;
   // std::cerr << "Read Integer " << atomTok.getString() << "\n";
 }
@@ -110,8 +117,15 @@ void ParserToken::assignFloat(ParserToken &parTok)
   if (parTok.getType() != atom) throw ParserError("Can't convert non-atom token to integer", atomTok);
   if (atomTok.getToken() != FLOAT) throw ParserError("Can't convert non-float atom to float", atomTok);
 
-  pFloatExpression pF(new Value<double>(boost::lexical_cast<double>(atomTok.getString())));
-  data = pF;
+  try
+  {
+    pFloatExpression pF(new Value<double>(boost::lexical_cast<double>(atomTok.getString())));
+    data = pF;
+  }
+  catch (boost::bad_lexical_cast&)
+  {
+    throw ParserError("Invalid number '"+atomTok.getString()+"'", atomTok);
+  }
   type = float_type;
   // std::cerr << "Read Float " << atomTok.getString() << "\n";
 }
-- 
2.43.0


From 8eec813ab1e8b85cd6b93d44acac5777bc77735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:29 +0000
Subject: [PATCH 23/48] fix: integer division by zero raises an exception

---
 src/variables/operators.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/variables/operators.hpp b/src/variables/operators.hpp
index 0557af6..dd373a0 100644
--- a/src/variables/operators.hpp
+++ b/src/variables/operators.hpp
@@ -211,6 +211,14 @@ namespace expression {
   }
 
 
+  template<>
+  inline int OperatorDivide<int>::eval(int val1, int val2)
+  {
+      if (val2 == 0) throw EvaluationException("Integer division by zero!");
+      // negating avoids the overflow in the division of the smallest integer
+      return (val2 == -1) ? int(-(unsigned int)val1) : val1 / val2;
+  }
+
   template<>
   inline std::string OperatorNeg<std::string>::eval(std::string) { return ""; }
 
-- 
2.43.0


From c47969d2ba37dc2c3420348fc836924ec6b92362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:29 +0000
Subject: [PATCH 24/48] fix: report variables that depend on each other

---
 src/variables/dependencies.cpp | 682 ++++++++++++++++-----------------
 1 file changed, 341 insertions(+), 341 deletions(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index e6db25e..1f0554f 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -1,341 +1,341 @@
-/*
- * dependencies.cpp
- *
- * Created on: 10 Jul 2012
- * Author: Holger Schmitz
- * Email: holger@notjustphysics.com
- *
- * Copyright 2012 Holger Schmitz
- *
- * This file is part of Schnek.
- *
- * Schnek is free software: you can redistribute it and/or modify
- * it under the terms of the GNU General Public License as published by
- * the Free Software Foundation, either version 3 of the License, or
- * (at your option) any later version.
- *
- * Schnek is distributed in the hope that it will be useful,
- * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- * GNU General Public License for more details.
- *
- * You should have received a copy of the GNU General Public License
- * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
- *
- */
-
-#include "dependencies.hpp"
-#include "expression.hpp"
-#include "../exception.hpp"
-#include "../util/logger.hpp"
-
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
-
-#include <boost/variant/apply_visitor.hpp>
-
-#pragma GCC diagnostic pop
-
-#include <cassert>
-
-#undef LOGLEVEL
-#define LOGLEVEL 0
-
-using namespace schnek;
-
-DependencyMap::DependencyMap(const pBlockVariables vars)
-{
-
-  static int dummyInt = 0;
-  typedef std::shared_ptr<Expression<int> > ParExpression;
-  ParExpression pexp(new ExternalValue<int>(&dummyInt));
-  pVariable tmp(new Variable(pexp, true, true));
-  dummyVar = tmp;
-
-  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
-  //dependencies[-1] = dummyInfo;
-  dependencies[dummyVar->getId()] = dummyInfo;
-//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
-
-  blockVars = vars;
-  constructMap(vars);
-}
-
-void DependencyMap::constructMapRecursive(const pBlockVariables vars)
-{
-  for(VariableMap::value_type it: vars->getVariables())
-  {
-    pVariable v=it.second;
-    if (!v->isConstant())
-    {
-      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
-      DependenciesGetter depGet;
-      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
-      if (dep.count(-1)>0)
-      {
-        dep.erase(-1);
-        dep.insert(dummyVar->getId());
-      }
-
-      long id = v->getId();
-      if (dependencies.count(id)>0) throw SchnekException();
-      dependencies[id] = VarInfo(v, dep, DependencySet());
-    }
-  }
-
-  for(pBlockVariables ch: vars->getChildren())
-  {
-    constructMapRecursive(ch);
-  }
-}
-void DependencyMap::constructMap(const pBlockVariables vars)
-{
-  SCHNEK_TRACE_ENTER_FUNCTION(3);
-
-
-  constructMapRecursive(vars);
-
-  for(DepMap::value_type entry: dependencies)
-  {
-    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
-    for(long id: entry.second.dependsOn)
-    {
-      if (dependencies.count(id)>0) {
-        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
-        dependencies[id].modifies.insert(entry.first);
-      }
-    }
-  }
-
-  SCHNEK_TRACE_EXIT_FUNCTION(3);
-}
-
-void DependencyMap::resetCounters()
-{
-  for(DepMap::value_type entry: dependencies)
-  {
-    entry.second.counter = entry.second.dependsOn.size();
-  }
-}
-
-void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
-{
-  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
-  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
-  makeUpdateOrder(deps, updateList);
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
-                                                                const VariableSet &dependentVars)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap predecessors_p(new RefDepMap());
-  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
-
-  // first initialise the working set and also add the variables to the predecessors
-  for(pVariable v: dependentVars)
-  {
-    long id=v->getId();
-    VarInfo *vi = &(dependencies[id]);
-    workingSet.push_back(vi);
-    predecessors[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->dependsOn)
-    {
-      // check if we already considered this variable
-      if (predecessors.count(id) > 0) continue;
-
-      // A negative id signals that the expression should be re-evaluated for every change.
-      // To do this we add all independent variables to the predecessors list.
-      if (id<0)
-      {
-        for(pVariable indVar: independentVars)
-        {
-          long indId = indVar->getId();
-          if (predecessors.count(indId) == 0)
-          {
-            // if not, put predecessors in the working set and in the map
-            VarInfo *pred = &(dependencies[indId]);
-            workingSet.push_back(pred);
-            predecessors[indId] = pred;
-          }
-        }
-      }
-      else
-      {
-        // if not, put predecessors in the working set and in the map
-        VarInfo *pred = &(dependencies[id]);
-        workingSet.push_back(pred);
-        predecessors[id] = pred;
-      }
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return predecessors_p;
-
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap followers_p(new RefDepMap());
-  RefDepMap &followers = *followers_p;
-  RefDepMap &predecessors = *predecessors_p;
-
-  // first initialise the working set and also add the variables to the followers
-  for(pVariable v: independentVars)
-  {
-    long id=v->getId();
-    // the variable is not needed if it is not in the predecessors
-    if (predecessors.count(id) == 0) continue;
-    VarInfo *vi = predecessors[id];
-    workingSet.push_back(vi);
-    followers[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->modifies)
-    {
-      // check if we already considered this variable or if we need it at all
-      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
-
-      // if not, put predecessors in the working set and in the map
-      VarInfo *foll = predecessors[id];
-      workingSet.push_back(foll);
-      followers[id] = foll;
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return followers_p;
-
-}
-
-void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
-{
-  typedef std::list<VarInfo*>::iterator WorkIter;
-
-  std::list<VarInfo*> workingSet;
-  RefDepMap &deps = *deps_p;
-
-  updateList.clear();
-
-  // first initialise the counters
-  for(RefDepMap::value_type entry: deps)
-  {
-
-    int count = 0;
-    VarInfo *vi = entry.second;
-    workingSet.push_back(vi);
-    for(long id: vi->dependsOn)
-    {
-      if (deps.count(id) > 0) ++count;
-    }
-    entry.second->counter = count;
-  }
-
-  while (!workingSet.empty())
-  {
-    VarInfo *nextEval = 0;
-    WorkIter it = workingSet.begin();
-    while ((nextEval==0) && (it!=workingSet.end()))
-    {
-      if ((*it)->counter==0) nextEval=*it;
-      else ++it;
-    }
-
-    assert(nextEval != 0);
-
-    workingSet.erase(it);
-    updateList.push_back(nextEval->v);
-
-    for(long id: nextEval->modifies)
-    {
-      if (deps.count(id) == 0) continue;
-      VarInfo *vi = deps[id];
-      --(vi->counter);
-      assert(vi->counter >= 0);
-    }
-  }
-}
-
-pBlockVariables DependencyMap::getBlockVariables()
-{
-  return blockVars;
-}
-
-void DependencyMap::updateAll()
-{
-  pRefDepMap deps(new RefDepMap());
-  for(DepMap::value_type &entry: dependencies)
-  {
-    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
-  }
-
-  VariableList updateList;
-
-  makeUpdateOrder(deps, updateList);
-
-  for(pVariable v: updateList) {
-    try
-    {
-      v->evaluateExpression();
-    }
-    catch(...)
-    {
-      // no-op, bulkhead
-    }
-  }
-}
-
-
-DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
-  : dependencies(dependencies_), isValid(true)
-{
-  assert(dependencies->dummyVar->isReadOnly());
-  independentVars.insert(dependencies->dummyVar);
-}
-
-
-void DependencyUpdater::addIndependent(pParameter p)
-{
-  assert(p->getVariable()->isReadOnly());
-  independentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::addDependent(pParameter p)
-{
-  assert(!!p);
-  // only non-constant variables have to be updated using the DependencyUpdater
-  if (p->getVariable()->isConstant())
-  {
-    p->update();
-    return;
-  }
-  dependentParameters.insert(p);
-  dependentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::clearDependent()
-{
-  dependentParameters.clear();
-  dependentVars.clear();
-  isValid = false;
-}
+/*
+ * dependencies.cpp
+ *
+ * Created on: 10 Jul 2012
+ * Author: Holger Schmitz
+ * Email: holger@notjustphysics.com
+ *
+ * Copyright 2012 Holger Schmitz
+ *
+ * This file is part of Schnek.
+ *
+ * Schnek is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ *
+ * Schnek is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
+ *
+ */
+
+#include "dependencies.hpp"
+#include "expression.hpp"
+#include "../exception.hpp"
+#include "../util/logger.hpp"
+
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+
+#include <boost/variant/apply_visitor.hpp>
+
+#pragma GCC diagnostic pop
+
+#include <cassert>
+
+#undef LOGLEVEL
+#define LOGLEVEL 0
+
+using namespace schnek;
+
+DependencyMap::DependencyMap(const pBlockVariables vars)
+{
+
+  static int dummyInt = 0;
+  typedef std::shared_ptr<Expression<int> > ParExpression;
+  ParExpression pexp(new ExternalValue<int>(&dummyInt));
+  pVariable tmp(new Variable(pexp, true, true));
+  dummyVar = tmp;
+
+  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
+  //dependencies[-1] = dummyInfo;
+  dependencies[dummyVar->getId()] = dummyInfo;
+//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
+
+  blockVars = vars;
+  constructMap(vars);
+}
+
+void DependencyMap::constructMapRecursive(const pBlockVariables vars)
+{
+  for(VariableMap::value_type it: vars->getVariables())
+  {
+    pVariable v=it.second;
+    if (!v->isConstant())
+    {
+      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
+      DependenciesGetter depGet;
+      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
+      if (dep.count(-1)>0)
+      {
+        dep.erase(-1);
+        dep.insert(dummyVar->getId());
+      }
+
+      long id = v->getId();
+      if (dependencies.count(id)>0) throw SchnekException();
+      dependencies[id] = VarInfo(v, dep, DependencySet());
+    }
+  }
+
+  for(pBlockVariables ch: vars->getChildren())
+  {
+    constructMapRecursive(ch);
+  }
+}
+void DependencyMap::constructMap(const pBlockVariables vars)
+{
+  SCHNEK_TRACE_ENTER_FUNCTION(3);
+
+
+  constructMapRecursive(vars);
+
+  for(DepMap::value_type entry: dependencies)
+  {
+    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
+    for(long id: entry.second.dependsOn)
+    {
+      if (dependencies.count(id)>0) {
+        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
+        dependencies[id].modifies.insert(entry.first);
+      }
+    }
+  }
+
+  SCHNEK_TRACE_EXIT_FUNCTION(3);
+}
+
+void DependencyMap::resetCounters()
+{
+  for(DepMap::value_type entry: dependencies)
+  {
+    entry.second.counter = entry.second.dependsOn.size();
+  }
+}
+
+void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
+{
+  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
+  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
+  makeUpdateOrder(deps, updateList);
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
+                                                                const VariableSet &dependentVars)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap predecessors_p(new RefDepMap());
+  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
+
+  // first initialise the working set and also add the variables to the predecessors
+  for(pVariable v: dependentVars)
+  {
+    long id=v->getId();
+    VarInfo *vi = &(dependencies[id]);
+    workingSet.push_back(vi);
+    predecessors[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->dependsOn)
+    {
+      // check if we already considered this variable
+      if (predecessors.count(id) > 0) continue;
+
+      // A negative id signals that the expression should be re-evaluated for every change.
+      // To do this we add all independent variables to the predecessors list.
+      if (id<0)
+      {
+        for(pVariable indVar: independentVars)
+        {
+          long indId = indVar->getId();
+          if (predecessors.count(indId) == 0)
+          {
+            // if not, put predecessors in the working set and in the map
+            VarInfo *pred = &(dependencies[indId]);
+            workingSet.push_back(pred);
+            predecessors[indId] = pred;
+          }
+        }
+      }
+      else
+      {
+        // if not, put predecessors in the working set and in the map
+        VarInfo *pred = &(dependencies[id]);
+        workingSet.push_back(pred);
+        predecessors[id] = pred;
+      }
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return predecessors_p;
+
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap followers_p(new RefDepMap());
+  RefDepMap &followers = *followers_p;
+  RefDepMap &predecessors = *predecessors_p;
+
+  // first initialise the working set and also add the variables to the followers
+  for(pVariable v: independentVars)
+  {
+    long id=v->getId();
+    // the variable is not needed if it is not in the predecessors
+    if (predecessors.count(id) == 0) continue;
+    VarInfo *vi = predecessors[id];
+    workingSet.push_back(vi);
+    followers[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->modifies)
+    {
+      // check if we already considered this variable or if we need it at all
+      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
+
+      // if not, put predecessors in the working set and in the map
+      VarInfo *foll = predecessors[id];
+      workingSet.push_back(foll);
+      followers[id] = foll;
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return followers_p;
+
+}
+
+void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
+{
+  typedef std::list<VarInfo*>::iterator WorkIter;
+
+  std::list<VarInfo*> workingSet;
+  RefDepMap &deps = *deps_p;
+
+  updateList.clear();
+
+  // first initialise the counters
+  for(RefDepMap::value_type entry: deps)
+  {
+
+    int count = 0;
+    VarInfo *vi = entry.second;
+    workingSet.push_back(vi);
+    for(long id: vi->dependsOn)
+    {
+      if (deps.count(id) > 0) ++count;
+    }
+    entry.second->counter = count;
+  }
+
+  while (!workingSet.empty())
+  {
+    VarInfo *nextEval = 0;
+    WorkIter it = workingSet.begin();
+    while ((nextEval==0) && (it!=workingSet.end()))
+    {
+      if ((*it)->counter==0) nextEval=*it;
+      else ++it;
+    }
+
+    if (nextEval == 0) throw EvaluationException("Variables depend on each other in a circle!");
+
+    workingSet.erase(it);
+    updateList.push_back(nextEval->v);
+
+    for(long id: nextEval->modifies)
+    {
+      if (deps.count(id) == 0) continue;
+      VarInfo *vi = deps[id];
+      --(vi->counter);
+      assert(vi->counter >= 0);
+    }
+  }
+}
+
+pBlockVariables DependencyMap::getBlockVariables()
+{
+  return blockVars;
+}
+
+void DependencyMap::updateAll()
+{
+  pRefDepMap deps(new RefDepMap());
+  for(DepMap::value_type &entry: dependencies)
+  {
+    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
+  }
+
+  VariableList updateList;
+
+  makeUpdateOrder(deps, updateList);
+
+  for(pVariable v: updateList) {
+    try
+    {
+      v->evaluateExpression();
+    }
+    catch(...)
+    {
+      // no-op, bulkhead
+    }
+  }
+}
+
+
+DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
+  : dependencies(dependencies_), isValid(true)
+{
+  assert(dependencies->dummyVar->isReadOnly());
+  independentVars.insert(dependencies->dummyVar);
+}
+
+
+void DependencyUpdater::addIndependent(pParameter p)
+{
+  assert(p->getVariable()->isReadOnly());
+  independentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::addDependent(pParameter p)
+{
+  assert(!!p);
+  // only non-constant variables have to be updated using the DependencyUpdater
+  if (p->getVariable()->isConstant())
+  {
+    p->update();
+    return;
+  }
+  dependentParameters.insert(p);
+  dependentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::clearDependent()
+{
+  dependentParameters.clear();
+  dependentVars.clear();
+  isValid = false;
+}
-- 
2.43.0


From 720a95299cd620acd1f40e8a97c91c6ff95b1718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:29 +0000
Subject: [PATCH 25/48] fix: the hierarchy can be initialised from any block

---
 src/variables/block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/block.cpp b/src/variables/block.cpp
index dab2ed1..ba4a913 100644
--- a/src/variables/block.cpp
+++ b/src/variables/block.cpp
@@ -137,7 +137,7 @@ void Block::postInitHierarchy()
 void Block::initAll()
 {
   Block *b = this;
-  while (b->parent) b = &(*parent);
+  while (b->parent) b = &(*(b->parent));
 
   b->evaluateParameters();
   b->registerHierarchy();
-- 
2.43.0


From 770ef761c273250442900286cc848df937687c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:29 +0000
Subject: [PATCH 26/48] fix: testing for variables finds the variables that can
 be retrieved

---
 src/variables/variables.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variables/variables.cpp b/src/variables/variables.cpp
index ef872e9..52dedab 100644
--- a/src/variables/variables.cpp
+++ b/src/variables/variables.cpp
@@ -146,7 +146,7 @@ bool BlockVariables::exists(std::list<std::string> path, bool upward)
   {
     if (vars.count(name)>0) return true;
   }
-  if (upward && (parent.get()==0)) return parent->exists(path, true);
+  if (upward && parent) return parent->exists(path, true);
 
   return false;
 }
@@ -154,7 +154,7 @@ bool BlockVariables::exists(std::list<std::string> path, bool upward)
 bool BlockVariables::exists(std::string name)
 {
   std::list<std::string> path;
-  boost::split(path, name, boost::is_any_of("."));
+  boost::split(path, name, boost::is_any_of(":"));
   return exists(path, true);
 }
 
-- 
2.43.0


From a396e2c0aa79bf0f99125745cdb586a175b36c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:04 +0000
Subject: [PATCH 27/48] fix: constants do not enter the map of dependencies

---
 src/variables/dependencies.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index 1f0554f..5fc5ebc 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -136,7 +136,9 @@ DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSe
   for(pVariable v: dependentVars)
   {
     long id=v->getId();
-    VarInfo *vi = &(dependencies[id]);
+    DepMap::iterator it = dependencies.find(id);
+    if (it == dependencies.end()) continue;
+    VarInfo *vi = &(it->second);
     workingSet.push_back(vi);
     predecessors[id] = vi;
   }
@@ -159,7 +161,7 @@ DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSe
         for(pVariable indVar: independentVars)
         {
           long indId = indVar->getId();
-          if (predecessors.count(indId) == 0)
+          if ((predecessors.count(indId) == 0) && (dependencies.count(indId) > 0))
           {
             // if not, put predecessors in the working set and in the map
             VarInfo *pred = &(dependencies[indId]);
@@ -168,7 +170,7 @@ DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSe
           }
         }
       }
-      else
+      else if (dependencies.count(id) > 0) // constants are not in the map and never change
       {
         // if not, put predecessors in the working set and in the map
         VarInfo *pred = &(dependencies[id]);
-- 
2.43.0


From e0388746bb277ab3f5750895ac6cc881f08cbd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:04 +0000
Subject: [PATCH 28/48] fix: the map of dependencies can be recreated

---
 src/variables/dependencies.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index 5fc5ebc..a996295 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -52,11 +52,6 @@ DependencyMap::DependencyMap(const pBlockVariables vars)
   pVariable tmp(new Variable(pexp, true, true));
   dummyVar = tmp;
 
-  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
-  //dependencies[-1] = dummyInfo;
-  dependencies[dummyVar->getId()] = dummyInfo;
-//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
-
   blockVars = vars;
   constructMap(vars);
 }
@@ -92,6 +87,8 @@ void DependencyMap::constructMap(const pBlockVariables vars)
 {
   SCHNEK_TRACE_ENTER_FUNCTION(3);
 
+  dependencies.clear();
+  dependencies[dummyVar->getId()] = VarInfo(dummyVar, DependencySet(), DependencySet());
 
   constructMapRecursive(vars);
 
-- 
2.43.0


From 7337c3185d6fcd765c8235167763cfacb183f402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:17 +0000
Subject: [PATCH 29/48] fix: every FieldFiller adds fields to itself, with the
 coordinates it was given

---
 src/tools/fieldtools.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools/fieldtools.hpp b/src/tools/fieldtools.hpp
index f5f429a..42687b2 100644
--- a/src/tools/fieldtools.hpp
+++ b/src/tools/fieldtools.hpp
@@ -142,10 +142,9 @@ class FieldFiller
       size_t rank,
       template<size_t> class ArrayCheckingPolicy
     >
-    fieldAdder<rank,ArrayCheckingPolicy> &set(Array<double, rank, ArrayCheckingPolicy> &coords, DependencyUpdater &updater)
+    fieldAdder<rank,ArrayCheckingPolicy> set(Array<double, rank, ArrayCheckingPolicy> &coords, DependencyUpdater &updater)
     {
-        static fieldAdder<rank,ArrayCheckingPolicy> adder(coords, updater, implementations);
-        return adder;
+        return fieldAdder<rank,ArrayCheckingPolicy>(coords, updater, implementations);
     }
 
     void clear() { implementations.clear(); }
-- 
2.43.0


From 234a20b3b701f2d6b2c5043067be5d32aaa830b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:23 +0000
Subject: [PATCH 30/48] fix: single output diagnostics advance their schedule
 on every process

A DeltaTimeDiagnostic that only the master writes never advanced its next
output time elsewhere, so adjustDeltaT returned different time steps on
different processes.
---
 src/diagnostic/diagnostic.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 106c62c..80a0515 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -131,15 +131,19 @@ DeltaTimeDiagnostic::DeltaTimeDiagnostic() : deltaTime(1.0), nextOutput(0.0), co
 void DeltaTimeDiagnostic::execute(bool master, int rank, double physicalTime)
 {
   SCHNEK_TRACE_LOG(2, "DeltaTimeDiagnostic::execute" << fname << " " << rank)
-  if (singleOut() && !master) return;
+  const bool output = master || !singleOut();
 
-  if ((0.0 == physicalTime) && appending()) open(fname);
+  if (output && (0.0 == physicalTime) && appending()) open(fname);
 
   if (physicalTime >= nextOutput)
   {
-    if (!appending()) open(parsedFileName(rank, count));
-    write();
-    if (!appending()) close();
+    if (output)
+    {
+      if (!appending()) open(parsedFileName(rank, count));
+      write();
+      if (!appending()) close();
+    }
+    // the schedule advances on every process, so that adjustDeltaT agrees everywhere
     nextOutput += deltaTime;
     ++count;
   }
-- 
2.43.0


From 7ce5fde6e196201f0cd9c952d47a4ac0b36f8236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:23 +0000
Subject: [PATCH 31/48] fix: DiagnosticManager reports a missing clock instead
 of dereferencing null

With only one of the two clocks set and diagnostics that need the other one,
execute() and adjustDeltaT() dereferenced a null pointer.
---
 src/diagnostic/diagnostic.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 80a0515..d798539 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -212,6 +212,12 @@ void DiagnosticManager::execute()
   if ((!usePhysicalTime && !timecounter) || (usePhysicalTime && !physicalTime))
     throw schnek::VariableNotInitialisedException("In DiagnosticManager: A time counter or physical time must be specified!");
 
+  if (!intervalDiags.empty() && !timecounter)
+    throw schnek::VariableNotInitialisedException("In DiagnosticManager: A time counter must be specified!");
+
+  if (!deltaTimeDiags.empty() && !physicalTime)
+    throw schnek::VariableNotInitialisedException("In DiagnosticManager: A physical time must be specified!");
+
   for(IntervalDiagnostic *diag: intervalDiags)
   {
     diag->execute(master, rank, *timecounter);
@@ -228,6 +234,8 @@ double DiagnosticManager::adjustDeltaT(double deltaT)
 {
   double adjustedDt = deltaT;
 
+  if (!deltaTimeDiags.empty() && !physicalTime)
+    throw schnek::VariableNotInitialisedException("In DiagnosticManager: A physical time must be specified!");
 
   for(DeltaTimeDiagnostic *diag: deltaTimeDiags)
   {
-- 
2.43.0


From 4bdb0f796c89915887dd9feea8be882d1552871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:23 +0000
Subject: [PATCH 32/48] fix: diagnostics unregister from the DiagnosticManager
 when destroyed

The manager kept the pointer and executed the destroyed object.
---
 src/diagnostic/diagnostic.cpp | 20 ++++++++++++++++++++
 src/diagnostic/diagnostic.hpp |  4 ++++
 2 files changed, 24 insertions(+)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index d798539..86f4bf1 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -99,6 +99,11 @@ IntervalDiagnostic::IntervalDiagnostic() : interval(100)
   DiagnosticManager::instance().addIntervalDiagnostic(this);
 }
 
+IntervalDiagnostic::~IntervalDiagnostic()
+{
+  DiagnosticManager::instance().removeIntervalDiagnostic(this);
+}
+
 void IntervalDiagnostic::execute(bool master, int rank, int timeCounter)
 {
   SCHNEK_TRACE_LOG(2, "IntervalDiagnostic::execute" << fname << " " << rank)
@@ -128,6 +133,11 @@ DeltaTimeDiagnostic::DeltaTimeDiagnostic() : deltaTime(1.0), nextOutput(0.0), co
   DiagnosticManager::instance().addDeltaTimeDiagnostic(this);
 }
 
+DeltaTimeDiagnostic::~DeltaTimeDiagnostic()
+{
+  DiagnosticManager::instance().removeDeltaTimeDiagnostic(this);
+}
+
 void DeltaTimeDiagnostic::execute(bool master, int rank, double physicalTime)
 {
   SCHNEK_TRACE_LOG(2, "DeltaTimeDiagnostic::execute" << fname << " " << rank)
@@ -203,6 +213,16 @@ void DiagnosticManager::addDeltaTimeDiagnostic(DeltaTimeDiagnostic *diag)
   deltaTimeDiags.push_back(diag);
 }
 
+void DiagnosticManager::removeIntervalDiagnostic(IntervalDiagnostic *diag)
+{
+  intervalDiags.remove(diag);
+}
+
+void DiagnosticManager::removeDeltaTimeDiagnostic(DeltaTimeDiagnostic *diag)
+{
+  deltaTimeDiags.remove(diag);
+}
+
 void DiagnosticManager::execute()
 {
 
diff --git a/src/diagnostic/diagnostic.hpp b/src/diagnostic/diagnostic.hpp
index c5f7457..db5871c 100644
--- a/src/diagnostic/diagnostic.hpp
+++ b/src/diagnostic/diagnostic.hpp
@@ -79,6 +79,7 @@ class IntervalDiagnostic : public DiagnosticInterface
     int interval;
   public:
     IntervalDiagnostic();
+    virtual ~IntervalDiagnostic();
     void execute(bool master, int rank, int timeCounter);
     int getInterval();
   protected:
@@ -94,6 +95,7 @@ class DeltaTimeDiagnostic : public DiagnosticInterface
     int count;
   public:
     DeltaTimeDiagnostic();
+    virtual ~DeltaTimeDiagnostic();
     void execute(bool master, int rank, double physicalTime);
     double getNextOutput();
     double getDeltaTime();
@@ -122,6 +124,8 @@ class DiagnosticManager : public Singleton<DiagnosticManager>
   public:
     void addIntervalDiagnostic(IntervalDiagnostic*);
     void addDeltaTimeDiagnostic(DeltaTimeDiagnostic*);
+    void removeIntervalDiagnostic(IntervalDiagnostic*);
+    void removeDeltaTimeDiagnostic(DeltaTimeDiagnostic*);
     void execute();
 
     void setTimeCounter(int *timecounter);
-- 
2.43.0


From 70978878ddb50d5f6f2f4231cf0011126fa94233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:23 +0000
Subject: [PATCH 33/48] fix: SimpleFileDiagnostic flushes what it writes

Blocks hold shared pointers to their parents and are not destroyed at the end
of a program, so the tail of a file in append mode was never written.
---
 src/diagnostic/diagnostic.t | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diagnostic/diagnostic.t b/src/diagnostic/diagnostic.t
index d0b61bd..9394a75 100644
--- a/src/diagnostic/diagnostic.t
+++ b/src/diagnostic/diagnostic.t
@@ -64,6 +64,8 @@ template<class Type, typename PointerType, class DiagnosticType>
 void SimpleFileDiagnostic<Type, PointerType, DiagnosticType>::write()
 {
   output << *(this->field);
+  // blocks may outlive main() undestroyed, which would lose buffered data
+  output.flush();
 }
 
 template<class Type, typename PointerType, class DiagnosticType>
-- 
2.43.0


From bd3423e4a951a6b87329aa5b3fbc48afa412e102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:21 +0000
Subject: [PATCH 34/48] fix: literature references keep their school and
 organization

The constructors of the theses, proceedings and manuals stored both in the
edition, so the BibTeX entries lacked them and carried a wrong edition.
---
 src/tools/literature.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools/literature.hpp b/src/tools/literature.hpp
index 4e363ca..f5c5920 100644
--- a/src/tools/literature.hpp
+++ b/src/tools/literature.hpp
@@ -597,7 +597,7 @@ class LiteratureInProceedings : public LiteratureReference
       setPages(pages);
       setAddress(address);
       setMonth(month);
-      setEdition(organization);
+      setOrganization(organization);
       setPublisher(publisher);
       setNote(note);
       setKey(key);
@@ -617,7 +617,7 @@ class LiteratureManual : public LiteratureReference
 
       setTitle(title);
       setAuthor(author);
-      setEdition(organization);
+      setOrganization(organization);
       setAddress(address);
       setEdition(edition);
       setYear(year);
@@ -639,7 +639,7 @@ class LiteratureMastersThesis : public LiteratureReference
 
       setAuthor(author);
       setTitle(title);
-      setEdition(school);
+      setSchool(school);
       setYear(year);
       setType(type);
       setAddress(address);
@@ -683,7 +683,7 @@ class LiteraturePhdThesis : public LiteratureReference
 
       setAuthor(author);
       setTitle(title);
-      setEdition(school);
+      setSchool(school);
       setYear(year);
       setType(type);
       setAddress(address);
@@ -713,7 +713,7 @@ class LiteratureProceedings : public LiteratureReference
       setSeries(series);
       setAddress(address);
       setMonth(month);
-      setEdition(organization);
+      setOrganization(organization);
       setPublisher(publisher);
       setNote(note);
       setKey(key);
-- 
2.43.0


From 57fba4c98e878dfa8177263a8ae2b71e67661ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:21 +0000
Subject: [PATCH 35/48] fix: a literature reference has a publication type from
 the start

The type was left uninitialised until setPublicationType was called.
---
 src/tools/literature.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/literature.hpp b/src/tools/literature.hpp
index f5c5920..033714e 100644
--- a/src/tools/literature.hpp
+++ b/src/tools/literature.hpp
@@ -78,8 +78,8 @@ private:
     std::string bibKey;
     PublicationType publType;
   public:
-    LiteratureReference() {}
-    LiteratureReference(std::string bibKey_) : bibKey(bibKey_) {}
+    LiteratureReference() : publType(misc) {}
+    LiteratureReference(std::string bibKey_) : bibKey(bibKey_), publType(misc) {}
 
     LiteratureReference(const LiteratureReference &ref) :
       address(ref.address),
-- 
2.43.0


From d09e73b8320b80bc38b3eef7a33f0542c65dcb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:45 +0000
Subject: [PATCH 36/48] fix: HdfOStream closes the previous file when it opens
 another one

HdfIStream did so already; the forgotten output file stayed open and could
not be read.
---
 src/diagnostic/hdfdiagnostic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 5107595..86179f2 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -268,6 +268,7 @@ HdfOStream::HdfOStream(const char* fname)
 }
 
 int HdfOStream::open(const char* fname) {
+  close();
   sets_count = 0;
 
 #if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-- 
2.43.0


From 012dbf48845e2fd3905b33ca2df51603d9ea7fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:35 +0000
Subject: [PATCH 37/48] fix: HDF5 attributes are written by all active
 processes

Creating an attribute is a collective operation. With only the first process
taking part, files written by several processes were corrupt, and attributes
were lost when that process was not active.
---
 src/diagnostic/hdfdiagnostic.t | 38 ++++++++++++++--------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index cc6051a..83c0f30 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -292,34 +292,26 @@ void HdfOStream::writeGrid(GridContainer<FieldType> &g)
   assert(ret != -1);
 #endif
 
-  /* now write the attributes */
+  /* now write the attributes, collectively as all changes to the structure of the file */
+  typedef std::pair<std::string, HdfAttributes::pInfo> attPair;
+  for(attPair p: attributes->attributes) {
+    HdfAttributes::Info &info = *(p.second);
 
-  int mpi_rank = 0;
-#if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-  MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
-#endif
-
-  if (mpi_rank==0) {
     /* Create the data space for the attribute. */
-    typedef std::pair<std::string, HdfAttributes::pInfo> attPair;
-    for(attPair p: attributes->attributes) {
-      HdfAttributes::Info &info = *(p.second);
+    const hid_t dataspace_id = H5Screate_simple(1, &info.dims, NULL);
+    /* Create a dataset attribute. */
+    const hid_t attribute_id = H5Acreate2 (dataset, p.first.c_str(), info.type, dataspace_id,
+                                           H5P_DEFAULT, H5P_DEFAULT);
 
-      const hid_t dataspace_id = H5Screate_simple(1, &info.dims, NULL);
-      /* Create a dataset attribute. */
-      const hid_t attribute_id = H5Acreate2 (dataset, p.first.c_str(), info.type, dataspace_id,
-                                             H5P_DEFAULT, H5P_DEFAULT);
+    /* Write the attribute data. */
+    ret = H5Awrite(attribute_id, info.type, info.buffer);
+    assert(ret != -1);
 
-      /* Write the attribute data. */
-      ret = H5Awrite(attribute_id, info.type, info.buffer);
-      assert(ret != -1);
+    /* Close the attribute. */
+    H5Aclose(attribute_id);
 
-      /* Close the attribute. */
-      H5Aclose(attribute_id);
-
-      /* Close the dataspace. */
-      H5Sclose(dataspace_id);
-    }
+    /* Close the dataspace. */
+    H5Sclose(dataspace_id);
   }
 
   /* close dataset collectively */
-- 
2.43.0


From 5b8f9a40686957ac6d7b82544dfc5fe84fae9f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:41 +0000
Subject: [PATCH 38/48] fix: HdfIStream::readGrid does nothing on processes
 that are not active

As HdfOStream::writeGrid; it tried to read from a file that was never opened.
---
 src/diagnostic/hdfdiagnostic.t | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index 83c0f30..9e8c9f5 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -53,6 +53,10 @@ void HdfAttributes::set(std::string name, const T &value, hsize_t dims) {
 template<typename FieldType>
 void HdfIStream::readGrid(GridContainer<FieldType> &g)
 {
+  if (!active) {
+    return;
+  }
+
   std::string dset_name = getNextBlockName();
 
   typedef typename FieldType::IndexType IndexType;
-- 
2.43.0


From 8efc01962d6469bf8cd7fa24f54836abdab7821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:32 +0000
Subject: [PATCH 39/48] fix: HdfOStream follows a change of the active
 processes

After setActive the next file was still opened with the communicator of the
previous one, which blocks when the processes differ.
---
 src/diagnostic/hdfdiagnostic.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 86179f2..243f9d7 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -278,7 +278,15 @@ int HdfOStream::open(const char* fname) {
   const int alignment = 1; // 262144;
 
 
+  const bool groupModified = activeModified;
   makeMPIGroup();
+  if (groupModified && initialised) {
+    /* the file access template refers to the previous communicator */
+    H5Pclose(plist_id);
+    H5Pclose(dxpl_id);
+    MPI_Info_free(&mpi_info);
+    initialised = false;
+  }
   if (active) {
     int rank;
     MPI_Comm_rank(MPI_COMM_WORLD, &rank);
-- 
2.43.0


From 4beb7c45211228c2b8cc7d0521632d73595d5dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:34 +0000
Subject: [PATCH 40/48] fix: HDF streams keep the communicator of the active
 processes

The second file opened after setActive used all processes again, so the
active ones waited for the others for ever.
---
 src/diagnostic/hdfdiagnostic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 243f9d7..4acc2a1 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -170,6 +170,7 @@ void HdfStream::makeMPIGroup()
   delete[] activeArr;
   delete[] inputArr;
 
+  commSet = true;
   activeModified = false;
 }
 #endif
-- 
2.43.0


From a22849a0dda0bdafa5293c47baf995f4177e3f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:28 +0000
Subject: [PATCH 41/48] fix: HDF5 files hold the cells in order for every
 storage layout

readGrid and writeGrid handed the raw data to HDF5 as if it were stored with
the last index running fastest, which scrambles grids in Fortran order.
---
 src/diagnostic/hdfdiagnostic.hpp |  1 +
 src/diagnostic/hdfdiagnostic.t   | 67 ++++++++++++++++++++++----------
 2 files changed, 47 insertions(+), 21 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index 47a4420..33778a3 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -41,6 +41,7 @@
 #endif
 
 #include <map>
+#include <vector>
 
 namespace schnek {
 
diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index 9e8c9f5..4a4b401 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -50,6 +50,31 @@ void HdfAttributes::set(std::string name, const T &value, hsize_t dims) {
   this->attributes[name] = info;
 }
 
+/**
+ * Visit the cells of a block of a grid in the order in which HDF5 stores them,
+ * the last index running fastest, whatever the storage layout of the grid
+ */
+template<typename FieldType, typename Function>
+void forEachHdfCell(FieldType &grid,
+                    const typename FieldType::IndexType &lo,
+                    const typename FieldType::IndexType &hi,
+                    Function function)
+{
+  typename FieldType::IndexType pos = lo;
+  for (int i=0; i<FieldType::Rank; ++i) if (hi[i]<lo[i]) return;
+
+  int dim = FieldType::Rank-1;
+  while (dim>=0)
+  {
+    function(grid[pos]);
+    for (dim=FieldType::Rank-1; dim>=0; --dim)
+    {
+      if (++pos[dim] <= hi[dim]) break;
+      pos[dim] = lo[dim];
+    }
+  }
+}
+
 template<typename FieldType>
 void HdfIStream::readGrid(GridContainer<FieldType> &g)
 {
@@ -73,9 +98,7 @@ void HdfIStream::readGrid(GridContainer<FieldType> &g)
   hsize_t dims[FieldType::Rank];
 
   hsize_t locdims[FieldType::Rank];
-  hsize_t memdims[FieldType::Rank];
   hsize_t locstart[FieldType::Rank];
-  hsize_t memstart[FieldType::Rank];
 
   for (int i=0; i<FieldType::Rank; ++i)
   {
@@ -84,8 +107,6 @@ void HdfIStream::readGrid(GridContainer<FieldType> &g)
     dims[i] = 1 + g.global_max[i] - gmin;
     locdims[i]  = lhi[i] - llo[i] + 1;
     locstart[i] = llo[i] - gmin;
-    memdims[i] = mhi[i] - mlo[i] + 1;
-    memstart[i] = llo[i] - mlo[i];
 
     if (dims[i]<(locstart[i]+locdims[i]))
     {
@@ -105,7 +126,6 @@ void HdfIStream::readGrid(GridContainer<FieldType> &g)
     }
   }
 
-  T *data = g.grid.getRawData();
   hid_t ret;
 
   /* open the dataset collectively */
@@ -128,12 +148,11 @@ void HdfIStream::readGrid(GridContainer<FieldType> &g)
   assert(ret != -1);
 
   /* create a memory dataspace independently */
-  hid_t mem_dataspace = H5Screate_simple(FieldType::Rank, memdims, NULL);
+  hid_t mem_dataspace = H5Screate_simple(FieldType::Rank, locdims, NULL);
   assert (mem_dataspace != -1);
-  ret = H5Sselect_hyperslab(mem_dataspace,  H5S_SELECT_SET,
-                            memstart, NULL, locdims, NULL);
-  assert(ret != -1);
 
+  std::vector<T> data;
+  forEachHdfCell(g.grid, llo, lhi, [&](const T &value) { data.push_back(value); });
 
   /* read the data independently */
   ret = H5Dread(dataset,
@@ -141,21 +160,30 @@ void HdfIStream::readGrid(GridContainer<FieldType> &g)
                 mem_dataspace,
                 file_dataspace,
                 H5P_DEFAULT,
-                data);
+                data.data());
   assert(ret != -1);
 
+  typename std::vector<T>::const_iterator next = data.begin();
+  forEachHdfCell(g.grid, llo, lhi, [&](T &value) { value = *(next++); });
+
   /* release all IDs created */
   H5Sclose(mem_dataspace);
   H5Sclose(file_dataspace);
 #else
+  std::vector<T> data;
+  forEachHdfCell(g.grid, mlo, mhi, [&](const T &value) { data.push_back(value); });
+
   /* read the data on single processor */
   ret = H5Dread(dataset,
                       H5DataType<T>::type,
                       H5S_ALL,
                       H5S_ALL,
                       H5P_DEFAULT,
-                      data);
+                      data.data());
   assert(ret != -1);
+
+  typename std::vector<T>::const_iterator next = data.begin();
+  forEachHdfCell(g.grid, mlo, mhi, [&](T &value) { value = *(next++); });
 #endif
 
   /* close dataset collectively */
@@ -189,7 +217,6 @@ void HdfOStream::writeGrid(GridContainer<FieldType> &g)
   hsize_t locdims[FieldType::Rank];
   hsize_t memdims[FieldType::Rank];
   hsize_t locstart[FieldType::Rank];
-  hsize_t memstart[FieldType::Rank];
 
   for (int i=0; i<FieldType::Rank; ++i)
   {
@@ -199,7 +226,6 @@ void HdfOStream::writeGrid(GridContainer<FieldType> &g)
     locdims[i]  = lhi[i] - llo[i] + 1;
     locstart[i] = llo[i] - gmin;
     memdims[i] = mhi[i] - mlo[i] + 1;
-    memstart[i] = llo[i] - mlo[i];
 
     SCHNEK_TRACE_LOG(2,"HdfOStream::writeGrid("<<i<<") "<< gmin <<" "<< g.global_max[i]<<" " << llo[i]<<" " << lhi[i])
 
@@ -223,7 +249,7 @@ void HdfOStream::writeGrid(GridContainer<FieldType> &g)
     }
   }
 
-  const T *data = g.grid.getRawData();
+  std::vector<T> data;
   hid_t ret;
 
   /* setup dimensionality object */
@@ -264,13 +290,10 @@ void HdfOStream::writeGrid(GridContainer<FieldType> &g)
   assert(ret != -1);
 
   /* create a memory dataspace independently */
-  hid_t mem_dataspace = H5Screate_simple (FieldType::Rank, memdims, NULL);
+  hid_t mem_dataspace = H5Screate_simple (FieldType::Rank, locdims, NULL);
   assert(mem_dataspace > -1);
 
-  ret = H5Sselect_hyperslab(mem_dataspace,  H5S_SELECT_SET,
-                            memstart, NULL, locdims, NULL);
-  assert(ret != -1);
-//  hid_t mem_dataspace = H5Dget_space(dataset);
+  forEachHdfCell(g.grid, llo, lhi, [&](const T &value) { data.push_back(value); });
 
   /* write data independently */
   ret = H5Dwrite(dataset,
@@ -278,7 +301,7 @@ void HdfOStream::writeGrid(GridContainer<FieldType> &g)
                  mem_dataspace,
                  file_dataspace,
                  dxpl_id,
-                 data);
+                 data.data());
 
   assert(ret != -1);
 
@@ -286,13 +309,15 @@ void HdfOStream::writeGrid(GridContainer<FieldType> &g)
   H5Sclose(mem_dataspace);
   H5Sclose(file_dataspace);
 #else
+  forEachHdfCell(g.grid, mlo, mhi, [&](const T &value) { data.push_back(value); });
+
   /* write data on single processor */
   ret = H5Dwrite(dataset,
                  H5DataType<T>::type,
                  H5S_ALL,
                  H5S_ALL,
                  H5P_DEFAULT,
-                 data);
+                 data.data());
   assert(ret != -1);
 #endif
 
-- 
2.43.0


From d9be102b1c56386b6a45e069cc31879768449da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:28 +0000
Subject: [PATCH 42/48] fix: HDF diagnostics in append mode write more than
 once

Every write set the name of the data set anew, so that the second write into
the same file tried to create a data set that existed.
---
 src/diagnostic/hdfdiagnostic.hpp | 3 +++
 src/diagnostic/hdfdiagnostic.t   | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index 33778a3..4a59b2d 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -233,6 +233,9 @@ class HdfOStream : public HdfStream {
  */
 template<typename Type, class DiagnosticType = IntervalDiagnostic >
 class HDFGridDiagnostic : public SimpleDiagnostic<Type, Type, DiagnosticType> {
+  private:
+    /// The name of the data set last written into the current file
+    std::string blockName;
   public:
     typedef typename Type::IndexType IndexType;
   protected:
diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index 4a4b401..21cd5d9 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -409,12 +409,19 @@ template<typename Type, class DiagnosticType>
 void HDFGridDiagnostic<Type, DiagnosticType>::open(const std::string &fname)
 {
   output.open(fname.c_str());
+  blockName = "";
 }
 
 template<typename Type, class DiagnosticType>
 void HDFGridDiagnostic<Type, DiagnosticType>::write()
 {
-  output.setBlockName(this->getDatasetName());
+  // repeated names within a file are numbered by the stream
+  const std::string nextName = this->getDatasetName();
+  if (nextName != blockName)
+  {
+    output.setBlockName(nextName);
+    blockName = nextName;
+  }
   output.setAttributes(this->getAttributes());
   output.writeGrid(container);
 }
-- 
2.43.0


From 8698cadd365328c56dc6400ac9b5a4aded4f28f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:50 +0000
Subject: [PATCH 43/48] fix: HDFGridReader can be used, its constructor was
 never defined

---
 src/diagnostic/hdfdiagnostic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index 4a59b2d..6cdcf71 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -300,7 +300,7 @@ class HDFGridReader : public Block
     std::string fileName;
   public:
     /// Default constructor
-    HDFGridReader();
+    HDFGridReader() {}
     /// Virtual destructor
     virtual ~HDFGridReader() {}
   protected:
-- 
2.43.0


From 69f91c91d735a9f3211fc6f3cdac5eaae4ccde77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:40 +0000
Subject: [PATCH 44/48] fix: a group of parameters removes the ids it contains

erase(first, last) was called on one set with iterators of another one,
which is undefined and in practice emptied or corrupted the set.
---
 src/variables/blockparameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/blockparameters.cpp b/src/variables/blockparameters.cpp
index 8f58e99..b551acf 100644
--- a/src/variables/blockparameters.cpp
+++ b/src/variables/blockparameters.cpp
@@ -51,7 +51,7 @@ bool ParametersGroup::isElement(pVariable v)
 
 bool ParametersGroup::hasElements(std::set<long> &ids)
 {
-  ids.erase(parameters.begin(), parameters.end());
+  for (long id: parameters) ids.erase(id);
   return ids.empty();
 }
 
-- 
2.43.0


From c3881a5e7cb40df1ff7567ec3ebbd87d3b92b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:17 +0000
Subject: [PATCH 45/48] fix: copied HDF5 streams keep their activity and create
 their own file access templates

The copy constructor of the output stream copied the flag that says the file access
template exists but not the template, so opening a file with a copy of a used stream
failed. Copies of a stream that is not active in this process were active.
---
 src/diagnostic/hdfdiagnostic.cpp | 35 ++++++++++++++++++++++++--------
 src/diagnostic/hdfdiagnostic.hpp |  6 ++++++
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 4acc2a1..2e4509f 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -59,10 +59,11 @@ HdfStream::HdfStream(const HdfStream& hdf)
     blockname(hdf.blockname),
     attributes(hdf.attributes),
     sets_count(hdf.sets_count),
-    active(true),
-    activeModified(false)
+    active(hdf.active),
+    activeModified(hdf.activeModified)
 #if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-    , commSet(false)
+    , mpiComm(hdf.mpiComm),
+    commSet(hdf.commSet)
 #endif
 {}
 
@@ -259,9 +260,28 @@ HdfOStream::HdfOStream()
 {}
 
 HdfOStream::HdfOStream(const HdfOStream& hdf)
-  : HdfStream(hdf), initialised(hdf.initialised)
+  : HdfStream(hdf), initialised(false)
 {}
 
+HdfOStream &HdfOStream::operator=(const HdfOStream& hdf)
+{
+  HdfStream::operator=(hdf);
+  /* the file access template is not shared, it is created anew for the communicator */
+  releaseTemplates();
+  return *this;
+}
+
+void HdfOStream::releaseTemplates()
+{
+  if (!initialised) return;
+#if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
+  H5Pclose(plist_id);
+  H5Pclose(dxpl_id);
+  MPI_Info_free(&mpi_info);
+#endif
+  initialised = false;
+}
+
 HdfOStream::HdfOStream(const char* fname)
    : HdfStream(), initialised(false)
 {
@@ -281,12 +301,9 @@ int HdfOStream::open(const char* fname) {
 
   const bool groupModified = activeModified;
   makeMPIGroup();
-  if (groupModified && initialised) {
+  if (groupModified) {
     /* the file access template refers to the previous communicator */
-    H5Pclose(plist_id);
-    H5Pclose(dxpl_id);
-    MPI_Info_free(&mpi_info);
-    initialised = false;
+    releaseTemplates();
   }
   if (active) {
     int rank;
diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index 6cdcf71..658e9af 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -211,6 +211,9 @@ class HdfOStream : public HdfStream {
 #endif
     hid_t plist_id;
     bool initialised;
+
+    /// release the templates for file access and data transfer
+    void releaseTemplates();
   public:
     /// constructor
     HdfOStream();
@@ -218,6 +221,9 @@ class HdfOStream : public HdfStream {
     /// copy constructor
     HdfOStream(const HdfOStream&);
 
+    /// assign
+    HdfOStream& operator = (const HdfOStream&);
+
     /// constructor, opens HDF file "fname"
     HdfOStream(const char* fname);
 
-- 
2.43.0


From 44c759aabb1d80fbeb8b17fdb074719c3b612414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:56 +0000
Subject: [PATCH 46/48] fix: a grid can be resized with its own limits

resize(g.getHi(), h) handed references to the limits that the resize overwrites;
the size was computed from the new lower limit and the wrong upper one.
---
 src/grid/gridstorage/single-array-allocation.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index 6a1d6f1..9dfaff5 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -145,7 +145,7 @@ namespace schnek
          * @brief resizes to grid with lower indices lo[0],...,lo[rank-1]
          * and upper indices hi[0],...,hi[rank-1]
          */
-        void resizeImpl(const IndexType &lo, const IndexType &hi);
+        void resizeImpl(IndexType lo, IndexType hi);
 
         /**
          * @brief Add an updater to the data
@@ -249,7 +249,7 @@ namespace schnek
          * @brief resizes to grid with lower indices lo[0],...,lo[rank-1]
          * and upper indices hi[0],...,hi[rank-1]
          */
-        void resizeImpl(const IndexType &lo, const IndexType &hi);
+        void resizeImpl(IndexType lo, IndexType hi);
 
         /**
          * @brief Add an updater to the data
@@ -336,7 +336,7 @@ namespace schnek
     }
 
     template <typename T, size_t rank>
-    void SingleArrayInstantAllocation<T, rank>::resizeImpl(const IndexType &lo, const IndexType &hi)
+    void SingleArrayInstantAllocation<T, rank>::resizeImpl(IndexType lo, IndexType hi)
     {
         this->deleteData();
         this->newData(lo, hi);
@@ -451,7 +451,7 @@ namespace schnek
     }
 
     template <typename T, size_t rank>
-    void SingleArrayLazyAllocation<T, rank>::resizeImpl(const IndexType &lo, const IndexType &hi)
+    void SingleArrayLazyAllocation<T, rank>::resizeImpl(IndexType lo, IndexType hi)
     {
         size_t newSize = 1;
         range = RangeType{lo, hi};
-- 
2.43.0


From e990a4615d985208525626c5f0e86a726820749c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:56 +0000
Subject: [PATCH 47/48] fix: a sub grid can be resized with its own limits

---
 src/grid/subgrid.hpp | 2 +-
 src/grid/subgrid.t   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grid/subgrid.hpp b/src/grid/subgrid.hpp
index 0914a76..5190eaf 100644
--- a/src/grid/subgrid.hpp
+++ b/src/grid/subgrid.hpp
@@ -103,7 +103,7 @@ class SubGridStorage {
 
     SubGridStorage(const IndexType &low_, const IndexType &high_);
 
-    void resize(const IndexType &low_, const IndexType &high_);
+    void resize(IndexType low_, IndexType high_);
 
     SCHNEK_INLINE T &get(const IndexType &index)
     {
diff --git a/src/grid/subgrid.t b/src/grid/subgrid.t
index a76b7dd..cf59e33 100644
--- a/src/grid/subgrid.t
+++ b/src/grid/subgrid.t
@@ -53,7 +53,7 @@ template<
   size_t rank,
   class BaseGrid
 >
-void SubGridStorage<T, rank, BaseGrid>::resize(const IndexType &low_, const IndexType &high_)
+void SubGridStorage<T, rank, BaseGrid>::resize(IndexType low_, IndexType high_)
 {
     domain = DomainType(low_, high_);
     for (size_t d = 0; d < rank; d++)
-- 
2.43.0


From 75d730725bc68c2bbd5fb462470d42af073fd709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:56 +0000
Subject: [PATCH 48/48] fix: a range can be grown by one of its own limits

---
 src/grid/range.hpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/grid/range.hpp b/src/grid/range.hpp
index a3fee54..383d5f3 100644
--- a/src/grid/range.hpp
+++ b/src/grid/range.hpp
@@ -110,7 +110,7 @@ class Range {
       return Range<T,rank-1,CheckingPolicy>(lo.projectDim(dim), hi.projectDim(dim));
     }
 
-    void grow(const T &s)
+    void grow(T s)
     {
       for (int i=0; i<rank; ++i)
       {
@@ -119,7 +119,7 @@ class Range {
       }
     }
 
-    void grow(const T &d0, const T &d1)
+    void grow(T d0, T d1)
     {
       BOOST_STATIC_ASSERT(2==rank);
       lo[0] -= d0;
@@ -128,7 +128,7 @@ class Range {
       hi[1] += d1;
     }
 
-    void grow(const T &d0, const T &d1, const T &d2)
+    void grow(T d0, T d1, T d2)
     {
       BOOST_STATIC_ASSERT(3==rank);
       lo[0] -= d0;
@@ -139,7 +139,7 @@ class Range {
       hi[2] += d2;
     }
 
-    void grow(const T &d0, const T &d1, const T &d2, const T &d3)
+    void grow(T d0, T d1, T d2, T d3)
     {
       BOOST_STATIC_ASSERT(4==rank);
       lo[0] -= d0;
@@ -152,7 +152,7 @@ class Range {
       hi[3] += d3;
     }
 
-    void grow(const T &d0, const T &d1, const T &d2, const T &d3, const T &d4)
+    void grow(T d0, T d1, T d2, T d3, T d4)
     {
       BOOST_STATIC_ASSERT(5==rank);
       lo[0] -= d0;
@@ -167,8 +167,8 @@ class Range {
       hi[4] += d4;
     }
 
-    void grow(const T &d0, const T &d1, const T &d2, const T &d3, const T &d4,
-              const T &d5)
+    void grow(T d0, T d1, T d2, T d3, T d4,
+              T d5)
     {
       BOOST_STATIC_ASSERT(6==rank);
       lo[0] -= d0;
@@ -185,8 +185,8 @@ class Range {
       hi[5] += d5;
     }
 
-    void grow(const T &d0, const T &d1, const T &d2, const T &d3, const T &d4,
-              const T &d5, const T &d6)
+    void grow(T d0, T d1, T d2, T d3, T d4,
+              T d5, T d6)
     {
       BOOST_STATIC_ASSERT(7==rank);
       lo[0] -= d0;
@@ -205,8 +205,8 @@ class Range {
       hi[6] += d6;
     }
 
-    void grow(const T &d0, const T &d1, const T &d2, const T &d3, const T &d4,
-              const T &d5, const T &d6, const T &d7)
+    void grow(T d0, T d1, T d2, T d3, T d4,
+              T d5, T d6, T d7)
     {
       BOOST_STATIC_ASSERT(8==rank);
       lo[0] -= d0;
@@ -227,8 +227,8 @@ class Range {
       hi[7] += d7;
     }
 
-    void grow(const T &d0, const T &d1, const T &d2, const T &d3, const T &d4,
-              const T &d5, const T &d6, const T &d7, const T &d8)
+    void grow(T d0, T d1, T d2, T d3, T d4,
+              T d5, T d6, T d7, T d8)
     {
       BOOST_STATIC_ASSERT(9==rank);
       lo[0] -= d0;
@@ -251,8 +251,8 @@ class Range {
       hi[8] += d8;
     }
 
-    void grow(const T &d0, const T &d1, const T &d2, const T &d3, const T &d4,
-              const T &d5, const T &d6, const T &d7, const T &d8, const T &d9)
+    void grow(T d0, T d1, T d2, T d3, T d4,
+              T d5, T d6, T d7, T d8, T d9)
     {
       BOOST_STATIC_ASSERT(10==rank);
       lo[0] -= d0;
-- 
2.43.0

