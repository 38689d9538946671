From 11b4b9e0987a48e3faf45d6bbab9163dd5323dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:31 +0000
Subject: [PATCH 01/20] fix: destroy the temporaries reconstructed while
 deserializing containers

---
 src/checkpoint/container/list_serialize.h     |  8 ++++++--
 src/checkpoint/container/map_serialize.h      |  4 +++-
 src/checkpoint/container/optional_serialize.h |  5 ++++-
 src/checkpoint/container/queue_serialize.h    |  5 ++++-
 src/checkpoint/container/variant_serialize.h  |  4 +++-
 src/checkpoint/container/vector_serialize.h   |  8 ++++++--
 src/checkpoint/dispatch/allocator.h           | 15 +++++++++++++++
 7 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/src/checkpoint/container/list_serialize.h b/src/checkpoint/container/list_serialize.h
index 262a08d..868814f 100644
--- a/src/checkpoint/container/list_serialize.h
+++ b/src/checkpoint/container/list_serialize.h
@@ -67,7 +67,9 @@ deserializeOrderedElems(
     dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
 
   Alloc allocated;
-  auto* reconstructed = Reconstructor::construct(allocated.buf);
+  dispatch::ReconstructedPtr<ElmT> reconstructed(
+    Reconstructor::construct(allocated.buf)
+  );
   cont.resize(size, *reconstructed);
   for (auto& val : cont) {
     s | val;
@@ -88,7 +90,9 @@ deserializeOrderedElems(
 
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; ++i) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::ReconstructedPtr<ElmT> reconstructed(
+      Reconstructor::construct(allocated.buf)
+    );
     s | *reconstructed;
     cont.emplace_back(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/map_serialize.h b/src/checkpoint/container/map_serialize.h
index a1a2a88..19fa1c3 100644
--- a/src/checkpoint/container/map_serialize.h
+++ b/src/checkpoint/container/map_serialize.h
@@ -69,7 +69,9 @@ inline typename std::enable_if_t<
 
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; i++) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::ReconstructedPtr<ElmT> reconstructed(
+      Reconstructor::construct(allocated.buf)
+    );
     s | *reconstructed;
     cont.emplace(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/optional_serialize.h b/src/checkpoint/container/optional_serialize.h
index c996286..c8064f2 100644
--- a/src/checkpoint/container/optional_serialize.h
+++ b/src/checkpoint/container/optional_serialize.h
@@ -45,6 +45,7 @@
 #define INCLUDED_SRC_CHECKPOINT_CONTAINER_OPTIONAL_SERIALIZE_H
 
 #include "checkpoint/common.h"
+#include "checkpoint/dispatch/allocator.h"
 
 #include <optional>
 
@@ -63,7 +64,9 @@ void deserializeOptional(SerializerT& s, std::optional<T>& optional) {
   auto* has_value = BoolReconstructor::construct(boolAllocated.buf);
   s | *has_value;
   if (*has_value) {
-    auto* value = ValReconstructor::construct(valAllocated.buf);
+    dispatch::ReconstructedPtr<T> value(
+      ValReconstructor::construct(valAllocated.buf)
+    );
     s | *value;
     optional = *value;
   } else {
diff --git a/src/checkpoint/container/queue_serialize.h b/src/checkpoint/container/queue_serialize.h
index 485fbcc..3727ffd 100644
--- a/src/checkpoint/container/queue_serialize.h
+++ b/src/checkpoint/container/queue_serialize.h
@@ -45,6 +45,7 @@
 #define INCLUDED_SRC_CHECKPOINT_CONTAINER_QUEUE_SERIALIZE_H
 
 #include "checkpoint/common.h"
+#include "checkpoint/dispatch/allocator.h"
 
 #include <queue>
 #include <stack>
@@ -58,7 +59,9 @@ void deserializeQueueElems(SerializerT& s, std::queue<T>& q, typename std::queue
 
   dispatch::Allocator<T> allocated;
   for (typename std::queue<T>::size_type i = 0; i < size; ++i) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::ReconstructedPtr<T> reconstructed(
+      Reconstructor::construct(allocated.buf)
+    );
     s | *reconstructed;
     q.push(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/variant_serialize.h b/src/checkpoint/container/variant_serialize.h
index 7c0e69a..c7fbc0e 100644
--- a/src/checkpoint/container/variant_serialize.h
+++ b/src/checkpoint/container/variant_serialize.h
@@ -68,7 +68,9 @@ struct SerializeEntry<Arg, Args...> {
         using Reconstructor =
           dispatch::Reconstructor<typename dispatch::CleanType<Arg>::CleanT>;
         Alloc allocated;
-        auto* reconstructed = Reconstructor::construct(allocated.buf);
+        dispatch::ReconstructedPtr<Arg> reconstructed(
+          Reconstructor::construct(allocated.buf)
+        );
         s | *reconstructed;
         v = std::move(*reconstructed);
       } else {
diff --git a/src/checkpoint/container/vector_serialize.h b/src/checkpoint/container/vector_serialize.h
index ed4478c..61212f2 100644
--- a/src/checkpoint/container/vector_serialize.h
+++ b/src/checkpoint/container/vector_serialize.h
@@ -86,7 +86,9 @@ void constructVectorData(
     dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
 
   Alloc allocated;
-  auto* reconstructed = Reconstructor::construct(allocated.buf);
+  dispatch::ReconstructedPtr<T> reconstructed(
+    Reconstructor::construct(allocated.buf)
+  );
   vec.resize(vec_size, *reconstructed);
 }
 
@@ -101,7 +103,9 @@ void constructVectorData(
 
   Alloc allocated;
   for (SerialSizeType i = 0; i < vec_size; ++i) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::ReconstructedPtr<T> reconstructed(
+      Reconstructor::construct(allocated.buf)
+    );
     vec.emplace_back(std::move(*reconstructed));
   }
 }
diff --git a/src/checkpoint/dispatch/allocator.h b/src/checkpoint/dispatch/allocator.h
index 1083c55..f137ab0 100644
--- a/src/checkpoint/dispatch/allocator.h
+++ b/src/checkpoint/dispatch/allocator.h
@@ -58,6 +58,21 @@ struct Allocator {
   SerialByteType* buf;
 };
 
+/**
+ * \brief Destroys an object without giving back its memory
+ */
+template <typename T>
+struct Destroyer {
+  void operator()(T* obj) const { obj->~T(); }
+};
+
+/**
+ * \brief A temporary, reconstructed on memory owned by someone else (such as
+ * \c Allocator ), that is destroyed when it goes out of scope
+ */
+template <typename T>
+using ReconstructedPtr = std::unique_ptr<T, Destroyer<T>>;
+
 }} // namespace checkpoint::dispatch
 
 #endif /*INCLUDED_SRC_CHECKPOINT_DISPATCH_ALLOCATOR_H*/
-- 
2.43.0


From 7371cd7a17430200ee66d0bce6f37396e5016caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:31 +0000
Subject: [PATCH 02/20] fix: replace the elements of a container when
 deserializing in place

---
 src/checkpoint/container/list_serialize.h   | 3 +++
 src/checkpoint/container/map_serialize.h    | 3 +++
 src/checkpoint/container/queue_serialize.h  | 3 +++
 src/checkpoint/container/vector_serialize.h | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/checkpoint/container/list_serialize.h b/src/checkpoint/container/list_serialize.h
index 868814f..30c7291 100644
--- a/src/checkpoint/container/list_serialize.h
+++ b/src/checkpoint/container/list_serialize.h
@@ -88,6 +88,9 @@ deserializeOrderedElems(
   using Reconstructor =
     dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
 
+  // Deserializing in place: elements already there are replaced
+  cont.clear();
+
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; ++i) {
     dispatch::ReconstructedPtr<ElmT> reconstructed(
diff --git a/src/checkpoint/container/map_serialize.h b/src/checkpoint/container/map_serialize.h
index 19fa1c3..f7a0291 100644
--- a/src/checkpoint/container/map_serialize.h
+++ b/src/checkpoint/container/map_serialize.h
@@ -67,6 +67,9 @@ inline typename std::enable_if_t<
   using Reconstructor =
     dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
 
+  // Deserializing in place: elements already there are replaced
+  cont.clear();
+
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; i++) {
     dispatch::ReconstructedPtr<ElmT> reconstructed(
diff --git a/src/checkpoint/container/queue_serialize.h b/src/checkpoint/container/queue_serialize.h
index 3727ffd..a5a7193 100644
--- a/src/checkpoint/container/queue_serialize.h
+++ b/src/checkpoint/container/queue_serialize.h
@@ -57,6 +57,9 @@ void deserializeQueueElems(SerializerT& s, std::queue<T>& q, typename std::queue
   using Reconstructor =
     dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
 
+  // Deserializing in place: elements already there are replaced
+  std::queue<T>().swap(q);
+
   dispatch::Allocator<T> allocated;
   for (typename std::queue<T>::size_type i = 0; i < size; ++i) {
     dispatch::ReconstructedPtr<T> reconstructed(
diff --git a/src/checkpoint/container/vector_serialize.h b/src/checkpoint/container/vector_serialize.h
index 61212f2..e7f6922 100644
--- a/src/checkpoint/container/vector_serialize.h
+++ b/src/checkpoint/container/vector_serialize.h
@@ -101,6 +101,9 @@ void constructVectorData(
   using Reconstructor =
     dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
 
+  // Deserializing in place: elements already there are replaced
+  vec.clear();
+
   Alloc allocated;
   for (SerialSizeType i = 0; i < vec_size; ++i) {
     dispatch::ReconstructedPtr<T> reconstructed(
-- 
2.43.0


From c74d9a585ef330ae63ed1c9492703b6cfb4e1a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:05 +0000
Subject: [PATCH 03/20] fix: a failed deserialization releases what it
 allocated, and only that

---
 src/checkpoint/checkpoint_api.impl.h    | 18 ++++++++----------
 src/checkpoint/dispatch/allocator.h     | 15 ---------------
 src/checkpoint/dispatch/dispatch.h      | 25 ++++++++++++++++++++++++-
 src/checkpoint/dispatch/dispatch.impl.h | 25 ++++++++++++++++++++-----
 4 files changed, 52 insertions(+), 31 deletions(-)

diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index 863472e..53212c3 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -108,12 +108,11 @@ void serializeToFile(T& target, std::string const& file) {
 
 template <typename T>
 std::unique_ptr<T> deserializeFromFile(std::string const& file) {
-  auto mem = dispatch::Standard::allocate<T>();
-  T* t_buf = dispatch::Standard::construct<T>(mem);
-  auto t = dispatch::Standard::unpack<T, UnpackerBuffer<buffer::IOBuffer>>(
-    t_buf, buffer::IOBuffer::ReadFromFileTag{}, file
+  auto t = dispatch::Standard::allocateAndConstruct<T>();
+  dispatch::Standard::unpack<T, UnpackerBuffer<buffer::IOBuffer>>(
+    t.get(), buffer::IOBuffer::ReadFromFileTag{}, file
   );
-  return std::unique_ptr<T>(t);
+  return t;
 }
 
 template <typename T>
@@ -133,12 +132,11 @@ void serializeToStream(T& target, StreamT& stream) {
 
 template <typename T, typename StreamT>
 std::unique_ptr<T> deserializeFromStream(StreamT& stream) {
-  auto mem = dispatch::Standard::allocate<T>();
-  T* t_buf = dispatch::Standard::construct<T>(mem);
-  auto t = dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
-    t_buf, stream
+  auto t = dispatch::Standard::allocateAndConstruct<T>();
+  dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
+    t.get(), stream
   );
-  return std::unique_ptr<T>(t);
+  return t;
 }
 
 template <typename T, typename StreamT>
diff --git a/src/checkpoint/dispatch/allocator.h b/src/checkpoint/dispatch/allocator.h
index f137ab0..1083c55 100644
--- a/src/checkpoint/dispatch/allocator.h
+++ b/src/checkpoint/dispatch/allocator.h
@@ -58,21 +58,6 @@ struct Allocator {
   SerialByteType* buf;
 };
 
-/**
- * \brief Destroys an object without giving back its memory
- */
-template <typename T>
-struct Destroyer {
-  void operator()(T* obj) const { obj->~T(); }
-};
-
-/**
- * \brief A temporary, reconstructed on memory owned by someone else (such as
- * \c Allocator ), that is destroyed when it goes out of scope
- */
-template <typename T>
-using ReconstructedPtr = std::unique_ptr<T, Destroyer<T>>;
-
 }} // namespace checkpoint::dispatch
 
 #endif /*INCLUDED_SRC_CHECKPOINT_DISPATCH_ALLOCATOR_H*/
diff --git a/src/checkpoint/dispatch/dispatch.h b/src/checkpoint/dispatch/dispatch.h
index e5c6da1..1ca081a 100644
--- a/src/checkpoint/dispatch/dispatch.h
+++ b/src/checkpoint/dispatch/dispatch.h
@@ -52,7 +52,7 @@
 #include "checkpoint/dispatch/reconstructor.h"
 
 #include <functional>
-
+#include <memory>
 #include <tuple>
 
 namespace checkpoint {
@@ -68,6 +68,21 @@ namespace checkpoint { namespace dispatch {
 
 struct InPlaceTag { };
 
+/**
+ * \brief Destroys an object without giving back its memory
+ */
+template <typename T>
+struct Destroyer {
+  void operator()(T* obj) const { obj->~T(); }
+};
+
+/**
+ * \brief A temporary, reconstructed on memory owned by someone else (such as
+ * \c Allocator ), that is destroyed when it goes out of scope
+ */
+template <typename T>
+using ReconstructedPtr = std::unique_ptr<T, Destroyer<T>>;
+
 /**
  * \struct Traverse
  *
@@ -186,6 +201,14 @@ struct Standard {
    */
   template <typename T>
   static SerialByteType* allocate();
+
+  /**
+   * \brief Allocate memory for \c T and construct it there
+   *
+   * \return the constructed object
+   */
+  template <typename T>
+  static std::unique_ptr<T> allocateAndConstruct();
 };
 
 template <typename T>
diff --git a/src/checkpoint/dispatch/dispatch.impl.h b/src/checkpoint/dispatch/dispatch.impl.h
index 44aac6a..803a4ff 100644
--- a/src/checkpoint/dispatch/dispatch.impl.h
+++ b/src/checkpoint/dispatch/dispatch.impl.h
@@ -226,6 +226,17 @@ T* Standard::construct(SerialByteType* mem) {
   return Traverse::reconstruct<T>(mem);
 }
 
+template <typename T>
+std::unique_ptr<T> Standard::allocateAndConstruct() {
+  auto mem = Standard::allocate<T>();
+  try {
+    return std::unique_ptr<T>(Standard::construct<T>(mem));
+  } catch (...) {
+    std::allocator<T>{}.deallocate(reinterpret_cast<T*>(mem), 1);
+    throw;
+  }
+}
+
 template <typename Serializer, typename T>
 inline void serializeArray(Serializer& s, T* array, SerialSizeType const len) {
   if (len > 0) {
@@ -274,12 +285,16 @@ buffer::ImplReturnType serializeType(T& target, BufferObtainFnType fn) {
 
 template <typename T>
 T* deserializeType(SerialByteType* data, SerialByteType* allocBuf) {
-  auto mem = allocBuf ? allocBuf : Standard::allocate<T>();
-  auto t_buf = std::unique_ptr<T>(Standard::construct<T>(mem));
-  T* traverser =
+  if (allocBuf) {
+    // The memory belongs to the caller, even if unpacking fails
+    ReconstructedPtr<T> t_buf(Standard::construct<T>(allocBuf));
     Standard::unpack<T, UnpackerBuffer<buffer::UserBuffer>>(t_buf.get(), data);
-  t_buf.release();
-  return traverser;
+    return t_buf.release();
+  }
+
+  auto t_buf = Standard::allocateAndConstruct<T>();
+  Standard::unpack<T, UnpackerBuffer<buffer::UserBuffer>>(t_buf.get(), data);
+  return t_buf.release();
 }
 
 template <typename T>
-- 
2.43.0


From 3c8afdee92fbbdc339b3a33d00834f0a9420302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:05 +0000
Subject: [PATCH 04/20] fix: give back the memory of a pointee whose
 construction throws

---
 src/checkpoint/dispatch/vrt/object_registry.h  | 11 ++++++++++-
 .../dispatch/vrt/virtual_serialize.h           | 18 ++++++++++++++----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/checkpoint/dispatch/vrt/object_registry.h b/src/checkpoint/dispatch/vrt/object_registry.h
index 54da0de..e63a942 100644
--- a/src/checkpoint/dispatch/vrt/object_registry.h
+++ b/src/checkpoint/dispatch/vrt/object_registry.h
@@ -58,21 +58,24 @@ namespace objregistry {
 template <typename T>
 struct ObjectEntry {
 
-  template <typename Allocator, typename Constructor>
+  template <typename Allocator, typename Deallocator, typename Constructor>
   ObjectEntry(
     TypeIdx in_idx,
     std::size_t in_size,
     Allocator&& in_allocator,
+    Deallocator&& in_deallocator,
     Constructor&& in_constructor
   ) : idx_(in_idx),
       size_(in_size),
       allocator_(in_allocator),
+      deallocator_(in_deallocator),
       constructor_(in_constructor)
   { }
 
   TypeIdx idx_ = no_type_idx;              /**< The type index for this ObjT */
   std::size_t size_ = 0;                   /**< The registered object size */
   std::function<void*(void)> allocator_;   /**< Do standard allocation for object */
+  std::function<void(void*)> deallocator_; /**< Give back what allocator_ returned */
   std::function<T*(void*)> constructor_;   /**< Construct object on memory */
 };
 
@@ -110,6 +113,7 @@ Registrar<ObjT>::Registrar() {
       index,
       sizeof(ObjT),
       []()          -> void*       { return std::allocator<ObjT>{}.allocate(1); },
+      [](void* buf) -> void        { std::allocator<ObjT>{}.deallocate(static_cast<ObjT*>(buf), 1); },
       [](void* buf) -> BaseType*   { return dispatch::Reconstructor<ObjT>::constructAllowFail(buf); }
     }
   );
@@ -134,6 +138,11 @@ inline auto allocateConcreteType(TypeIdx han) {
   return getRegistry<T>().at(han).allocator_();
 }
 
+template <typename T>
+inline auto deallocateConcreteType(TypeIdx han, void* buf) {
+  return getRegistry<T>().at(han).deallocator_(buf);
+}
+
 template <typename T>
 inline auto constructConcreteType(TypeIdx han, void* buf) {
   return getRegistry<T>().at(han).constructor_(buf);
diff --git a/src/checkpoint/dispatch/vrt/virtual_serialize.h b/src/checkpoint/dispatch/vrt/virtual_serialize.h
index 2082dd4..80dcc92 100644
--- a/src/checkpoint/dispatch/vrt/virtual_serialize.h
+++ b/src/checkpoint/dispatch/vrt/virtual_serialize.h
@@ -152,7 +152,12 @@ struct ReconstructAsVirtualIfNeeded<
   static T* apply(SerializerT&, dispatch::vrt::TypeIdx) {
     // no type idx needed in this case, static construction in default case
     auto t = std::allocator<T>{}.allocate(1);
-    return dispatch::Reconstructor<T>::construct(t);
+    try {
+      return dispatch::Reconstructor<T>::construct(t);
+    } catch (...) {
+      std::allocator<T>{}.deallocate(t, 1);
+      throw;
+    }
   }
 };
 
@@ -181,9 +186,14 @@ struct ReconstructAsVirtualIfNeeded<
 
     // use type idx here, registration needed for proper type re-construction
     auto t = dispatch::vrt::objregistry::allocateConcreteType<BaseT>(entry);
-    return static_cast<T*>(
-                           dispatch::vrt::objregistry::constructConcreteType<BaseT>(entry, t)
-                           );
+    try {
+      return static_cast<T*>(
+                             dispatch::vrt::objregistry::constructConcreteType<BaseT>(entry, t)
+                             );
+    } catch (...) {
+      dispatch::vrt::objregistry::deallocateConcreteType<BaseT>(entry, t);
+      throw;
+    }
   }
 };
 
-- 
2.43.0


From 73cd2a1d605c4df999dbc9821f97aff675bc449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:05 +0000
Subject: [PATCH 05/20] fix: destroy the elements of a tuple whose
 reconstruction fails half-way

---
 src/checkpoint/container/tuple_serialize.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/checkpoint/container/tuple_serialize.h b/src/checkpoint/container/tuple_serialize.h
index 5efe06e..03a2fa4 100644
--- a/src/checkpoint/container/tuple_serialize.h
+++ b/src/checkpoint/container/tuple_serialize.h
@@ -45,6 +45,7 @@
 #define INCLUDED_SRC_CHECKPOINT_CONTAINER_TUPLE_SERIALIZE_H
 
 #include "checkpoint/common.h"
+#include "checkpoint/dispatch/dispatch.h"
 #include "checkpoint/serializers/serializers_headers.h"
 
 #include <tuple>
@@ -60,11 +61,18 @@ void tuple_helper(Serializer& s, std::tuple<T...>& tup, std::index_sequence<Idxs
   );
 }
 
-template <typename... T, size_t... Idxs>
-void tuple_helper_reconstruct(std::tuple<T...>*& tup, std::index_sequence<Idxs...>) {
-  std::forward_as_tuple(
-    (dispatch::Reconstructor<T>::construct(&std::get<Idxs>(*tup)))...
-  );
+template <size_t Idx, typename... T>
+void tuple_helper_reconstruct(std::tuple<T...>*& tup) {
+  if constexpr (Idx < sizeof...(T)) {
+    using ElmT = std::tuple_element_t<Idx, std::tuple<T...>>;
+
+    // If constructing a later element throws, this one is destroyed again
+    dispatch::ReconstructedPtr<ElmT> elm(
+      dispatch::Reconstructor<ElmT>::construct(&std::get<Idx>(*tup))
+    );
+    tuple_helper_reconstruct<Idx + 1>(tup);
+    elm.release();
+  }
 }
 
 template <typename Serializer, typename... Args>
@@ -84,7 +92,7 @@ struct CheckpointReconstructor<std::tuple<Args...>> {
   static void reconstruct(std::tuple<Args...>*& tuple, void* buf) {
     using TupleType = std::decay_t<decltype(*tuple)>;
     tuple = std::launder<TupleType>(reinterpret_cast<TupleType*>(buf));
-    tuple_helper_reconstruct(tuple, std::index_sequence_for<Args...>());
+    tuple_helper_reconstruct<0>(tuple);
   }
 };
 
-- 
2.43.0


From 6aad2390a82e50dab6ed509fcf01d161dba88e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:05 +0000
Subject: [PATCH 06/20] fix: serialize every element of an array of polymorphic
 objects

---
 src/checkpoint/dispatch/dispatch_serializer_nonbyte.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
index 247e0c4..de570f6 100644
--- a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
+++ b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
@@ -222,7 +222,10 @@ struct SerializerDispatchNonByte {
       s.setVirtualDisabled(false);
       applyStatic(s, val, num);
     } else {
-      dispatch::vrt::virtualSerialize(val, s);
+      for (SerialSizeType i = 0; i < num; i++) {
+        auto elm = val + i;
+        dispatch::vrt::virtualSerialize(elm, s);
+      }
     }
   }
 
-- 
2.43.0


From ca08b99ef33f7ff1ce209e016ce0a442701a1073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:05 +0000
Subject: [PATCH 07/20] fix: polymorphic objects can be written to and read
 from any standard stream type

---
 src/checkpoint/checkpoint_api.impl.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index 53212c3..6e01d03 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -49,10 +49,24 @@
 #include "checkpoint/checkpoint_api.h"
 #include "buffer/buffer.h"
 
+#include <istream>
 #include <memory>
+#include <ostream>
+#include <type_traits>
 
 namespace checkpoint {
 
+namespace detail {
+
+// Polymorphic classes are registered with the serializers for the standard base
+// streams only, so use these whenever possible
+template <typename BaseT, typename StreamT>
+using BaseStreamType = std::conditional_t<
+  std::is_base_of<BaseT, StreamT>::value, BaseT, StreamT
+>;
+
+} /* end namespace detail */
+
 template <typename T>
 SerializedReturnType serialize(T& target, BufferCallbackType fn) {
   auto ret = dispatch::serializeType<T>(target, fn);
@@ -124,16 +138,18 @@ void deserializeInPlaceFromFile(std::string const& file, T* t) {
 
 template <typename T, typename StreamT>
 void serializeToStream(T& target, StreamT& stream) {
+  using BaseStreamT = detail::BaseStreamType<std::ostream, StreamT>;
   auto len = getSize<T>(target);
-  dispatch::Standard::pack<T, StreamPacker<StreamT>>(
+  dispatch::Standard::pack<T, StreamPacker<BaseStreamT>>(
     target, len, stream
   );
 }
 
 template <typename T, typename StreamT>
 std::unique_ptr<T> deserializeFromStream(StreamT& stream) {
+  using BaseStreamT = detail::BaseStreamType<std::istream, StreamT>;
   auto t = dispatch::Standard::allocateAndConstruct<T>();
-  dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
+  dispatch::Standard::unpack<T, StreamUnpacker<BaseStreamT>>(
     t.get(), stream
   );
   return t;
@@ -141,7 +157,8 @@ std::unique_ptr<T> deserializeFromStream(StreamT& stream) {
 
 template <typename T, typename StreamT>
 void deserializeInPlaceFromStream(StreamT& stream, T* t) {
-  dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
+  using BaseStreamT = detail::BaseStreamType<std::istream, StreamT>;
+  dispatch::Standard::unpack<T, StreamUnpacker<BaseStreamT>>(
     t, stream
   );
 }
-- 
2.43.0


From 6867fe7cbdb6e2908fc9239ed68923223007158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:12 +0000
Subject: [PATCH 08/20] fix: report file errors as exceptions and release the
 file in every case

---
 src/checkpoint/buffer/io_buffer.cc   | 87 +++++++++++++++-------------
 src/checkpoint/buffer/io_buffer.h    |  9 ++-
 src/checkpoint/checkpoint_api.impl.h |  3 +-
 3 files changed, 56 insertions(+), 43 deletions(-)

diff --git a/src/checkpoint/buffer/io_buffer.cc b/src/checkpoint/buffer/io_buffer.cc
index 7cad8ec..6a36e77 100644
--- a/src/checkpoint/buffer/io_buffer.cc
+++ b/src/checkpoint/buffer/io_buffer.cc
@@ -218,12 +218,29 @@ void IOBuffer::setupForWrite() {
 void IOBuffer::setupFile() {
   debug_checkpoint("IOBuffer: opening file: %s\n", file_.c_str());
 
-  if (mode_ == ModeEnum::ReadFromFile) {
-    setupForRead();
-  } else if (mode_ == ModeEnum::WriteToFile) {
-    setupForWrite();
-  } else {
-    throw std::runtime_error("Invalid IOBuffer mode");
+  try {
+    if (mode_ == ModeEnum::ReadFromFile) {
+      setupForRead();
+    } else if (mode_ == ModeEnum::WriteToFile) {
+      setupForWrite();
+    } else {
+      throw std::runtime_error("Invalid IOBuffer mode");
+    }
+  } catch (...) {
+    // The destructor will not run
+    if (fd_ != -1) {
+      close(fd_);
+      fd_ = -1;
+    }
+    throw;
+  }
+}
+
+IOBuffer::~IOBuffer() {
+  try {
+    closeFile();
+  } catch (std::exception const&) {
+    // A destructor can not report the failure: call closeFile() to learn of it
   }
 }
 
@@ -238,71 +255,61 @@ void IOBuffer::closeFile() {
   auto addr = static_cast<void*>(buffer_);
 
   int ret = 0;
+  std::string err = "";
+
+  /*
+   * Keep the first error, continue to release the other resources
+   */
+  auto check = [&](char const* what) {
+    if (ret != 0 and err.empty()) {
+      err = std::string(what) + " failed on file=" + file_ + ": errno=" +
+            std::to_string(errno) + ": " + strerror(errno);
+    }
+  };
 
   /*
    * msync/msync64 the mapped file causing the file to be written out
    */
   if (mode_ == ModeEnum::WriteToFile) {
-    debug_checkpoint("~IOBuffer: msync: file=%s, len=%lu\n", file_.c_str(), size_);
+    debug_checkpoint("IOBuffer: msync: file=%s, len=%lu\n", file_.c_str(), size_);
 
 #   if defined(checkpoint_has_msync64)
     ret = msync64(addr, size_, MS_SYNC);
-
-    if (ret != 0) {
-      auto err = std::string("msync64 failed on file after write: errno=") +
-                 std::to_string(errno) + ": " + strerror(errno);
-      throw std::runtime_error(err);
-    }
-
+    check("msync64");
 #   else
     ret = msync(addr, size_, MS_SYNC);
-
-    if (ret != 0) {
-      auto err = std::string("msync failed on file after write: errno=") +
-                 std::to_string(errno) + ": " + strerror(errno);
-      throw std::runtime_error(err);
-    }
+    check("msync");
 #   endif
   }
 
   /*
    * Unmap the file via munmap/munmap64
    */
-  debug_checkpoint("~IOBuffer: munmap\n");
+  debug_checkpoint("IOBuffer: munmap\n");
 
 # if defined(checkpoint_has_munmap64)
   ret = munmap64(addr, size_);
-
-  if (ret != 0) {
-    auto err = std::string("munmap64 failed on after write: errno=") +
-               std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
-  }
-
+  check("munmap64");
 # else
   ret = munmap(addr, size_);
-
-  if (ret != 0) {
-    auto err = std::string("munmap failed on file after write: errno=") +
-               std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
-  }
+  check("munmap");
 # endif
 
+  buffer_ = nullptr;
+
   /*
    * Finally, close the file. We are done.
    */
-  debug_checkpoint("~IOBuffer: closing file\n");
+  debug_checkpoint("IOBuffer: closing file\n");
 
   ret = close(fd_);
+  check("close");
 
-  if (ret != 0) {
-    auto err = std::string("close on file descriptor failed: errno=") +
-               std::to_string(errno) + ": " + strerror(errno);
+  fd_ = -1;
+
+  if (not err.empty()) {
     throw std::runtime_error(err);
   }
-
-  fd_ = -1;
 }
 
 }} /* end namespace checkpoint::buffer */
diff --git a/src/checkpoint/buffer/io_buffer.h b/src/checkpoint/buffer/io_buffer.h
index 43a5db6..6b65fb4 100644
--- a/src/checkpoint/buffer/io_buffer.h
+++ b/src/checkpoint/buffer/io_buffer.h
@@ -79,13 +79,18 @@ public:
 
 private:
   void setupFile();
-  void closeFile();
   void setupForRead();
   void setupForWrite();
 
 public:
 
-  virtual ~IOBuffer() { closeFile(); }
+  /**
+   * \brief Sync, unmap and close the file. Everything is released even if one
+   * of the steps fails, in which case the first failure is thrown.
+   */
+  void closeFile();
+
+  virtual ~IOBuffer();
 
   virtual SerialByteType* getBuffer() const override {
     return buffer_;
diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index 6e01d03..c484249 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -115,9 +115,10 @@ std::size_t getMemoryFootprint(T& target, std::size_t size_offset) {
 template <typename T>
 void serializeToFile(T& target, std::string const& file) {
   auto len = getSize<T>(target);
-  dispatch::Standard::pack<T, PackerBuffer<buffer::IOBuffer>>(
+  auto p = dispatch::Standard::pack<T, PackerBuffer<buffer::IOBuffer>>(
     target, len, buffer::IOBuffer::WriteToFileTag{}, len, file
   );
+  p.extractPackedBuffer()->closeFile();
 }
 
 template <typename T>
-- 
2.43.0


From c2357c2758bc72d4706b9cac91d34e08ea13e82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:12 +0000
Subject: [PATCH 09/20] fix: throw when a file ends before the object does

---
 src/checkpoint/serializers/unpacker.h      | 3 +++
 src/checkpoint/serializers/unpacker.impl.h | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/src/checkpoint/serializers/unpacker.h b/src/checkpoint/serializers/unpacker.h
index 85e9a85..720eaa9 100644
--- a/src/checkpoint/serializers/unpacker.h
+++ b/src/checkpoint/serializers/unpacker.h
@@ -63,6 +63,9 @@ struct UnpackerBuffer : MemorySerializer {
   SerialSizeType usedBufferSize() const;
 
 private:
+  // Size of the buffer we are unpacking, 0 if it is not known
+  SerialSizeType size_ = 0;
+
   // Size of the actually used memory (for error checking)
   SerialSizeType usedSize_ = 0;
 
diff --git a/src/checkpoint/serializers/unpacker.impl.h b/src/checkpoint/serializers/unpacker.impl.h
index ad2429b..1dff634 100644
--- a/src/checkpoint/serializers/unpacker.impl.h
+++ b/src/checkpoint/serializers/unpacker.impl.h
@@ -50,6 +50,7 @@
 
 #include <cstdlib>
 #include <cstring>
+#include <stdexcept>
 
 namespace checkpoint {
 
@@ -59,6 +60,7 @@ UnpackerBuffer<BufferT>::UnpackerBuffer(SerialByteType* buf)
     buffer_(std::make_unique<BufferT>(buf, 0))
 {
   MemorySerializer::initializeBuffer(buffer_->getBuffer());
+  size_ = buffer_->getSize();
 
   debug_checkpoint(
     "UnpackerBuffer: start_=%p, cur_=%p\n",
@@ -74,6 +76,7 @@ UnpackerBuffer<BufferT>::UnpackerBuffer(Args&&... args)
     buffer_(std::make_unique<BufferT>(std::forward<Args>(args)...))
 {
   MemorySerializer::initializeBuffer(buffer_->getBuffer());
+  size_ = buffer_->getSize();
 
   debug_checkpoint(
     "UnpackerBuffer: start_=%p, cur_=%p\n",
@@ -92,6 +95,10 @@ void UnpackerBuffer<BufferT>::contiguousBytes(
   );
 
   SerialSizeType const len = size * num_elms;
+  if (size_ != 0 and len > size_ - usedSize_) {
+    throw std::runtime_error("Buffer ends before all bytes were unpacked");
+  }
+
   SerialByteType* spot = this->getSpotIncrement(len);
   std::memcpy(ptr, spot, len);
 
-- 
2.43.0


From 128e201792495c025db6484a540df9e353b00198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:12 +0000
Subject: [PATCH 10/20] fix: packing more than was sized is an error, not a
 write past the buffer

---
 src/checkpoint/checkpoint_api.impl.h           | 4 +++-
 src/checkpoint/serializers/packer.impl.h       | 8 ++++++++
 src/checkpoint/serializers/stream_serializer.h | 2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index c484249..c080cd0 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -118,6 +118,7 @@ void serializeToFile(T& target, std::string const& file) {
   auto p = dispatch::Standard::pack<T, PackerBuffer<buffer::IOBuffer>>(
     target, len, buffer::IOBuffer::WriteToFileTag{}, len, file
   );
+  dispatch::validatePackerBufferSize<T>(p, len);
   p.extractPackedBuffer()->closeFile();
 }
 
@@ -141,9 +142,10 @@ template <typename T, typename StreamT>
 void serializeToStream(T& target, StreamT& stream) {
   using BaseStreamT = detail::BaseStreamType<std::ostream, StreamT>;
   auto len = getSize<T>(target);
-  dispatch::Standard::pack<T, StreamPacker<BaseStreamT>>(
+  auto p = dispatch::Standard::pack<T, StreamPacker<BaseStreamT>>(
     target, len, stream
   );
+  dispatch::validatePackerBufferSize<T>(p, len);
 }
 
 template <typename T, typename StreamT>
diff --git a/src/checkpoint/serializers/packer.impl.h b/src/checkpoint/serializers/packer.impl.h
index 8754cb6..7230469 100644
--- a/src/checkpoint/serializers/packer.impl.h
+++ b/src/checkpoint/serializers/packer.impl.h
@@ -119,6 +119,14 @@ void PackerBuffer<BufferT>::contiguousBytes(
   );
 
   SerialSizeType const len = size * num_elms;
+
+  // If there is more to pack than the Sizer reported, do not write beyond the
+  // end of the buffer. The difference is detected after packing.
+  if (usedSize_ > size_ or len > size_ - usedSize_) {
+    usedSize_ += len;
+    return;
+  }
+
   SerialByteType* spot = this->getSpotIncrement(len);
   #pragma GCC diagnostic push
 #if !defined(__has_warning)
diff --git a/src/checkpoint/serializers/stream_serializer.h b/src/checkpoint/serializers/stream_serializer.h
index 2974009..b129564 100644
--- a/src/checkpoint/serializers/stream_serializer.h
+++ b/src/checkpoint/serializers/stream_serializer.h
@@ -64,7 +64,7 @@ struct StreamPacker : BaseSerializer {
     n_bytes += size*num_elms;
   }
 
-  SerialSizeType usedBufferSize() {
+  SerialSizeType usedBufferSize() const {
     return n_bytes;
   }
 
-- 
2.43.0


From 77abd8bae6fef06ba15086b7f5078459ee0e8257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:12 +0000
Subject: [PATCH 11/20] fix: do not write to library state while objects are
 being traversed

---
 src/checkpoint/dispatch/dispatch_serializer_nonbyte.h | 6 +++---
 src/checkpoint/dispatch/type_registry.h               | 6 +++++-
 src/checkpoint/dispatch/vrt/serialize_instantiator.h  | 5 ++++-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
index de570f6..d7713f6 100644
--- a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
+++ b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
@@ -49,6 +49,7 @@
 #include "checkpoint/dispatch/vrt/virtual_serialize_traits.h"
 #include "checkpoint/dispatch/vrt/virtual_serialize.h"
 
+#include <atomic>
 #include <type_traits>
 #include <tuple>
 #include <cstdlib>
@@ -158,9 +159,8 @@ struct SerializerDispatchNonByte {
       static_cast<void*>(&val),
       typeid(val).name()
     );
-    static bool firstCall = true;
-    if (firstCall) {
-      firstCall = false;
+    static std::atomic<bool> firstCall{true};
+    if (firstCall.exchange(false)) {
       debug_checkpoint(
         "SerializerDispatch: warning: simplified footprinting in use!\n"
         "Objects of type: typeid=%s will not be traversed\n",
diff --git a/src/checkpoint/dispatch/type_registry.h b/src/checkpoint/dispatch/type_registry.h
index 69881a9..b940a2b 100644
--- a/src/checkpoint/dispatch/type_registry.h
+++ b/src/checkpoint/dispatch/type_registry.h
@@ -124,7 +124,11 @@ inline DecodedIndex getTypeIdx() {
 }
 
 inline std::string const& getTypeNameForIdx(DecodedIndex const typeIdx) {
-  return getRegisteredNames()[typeIdx];
+  // Do not insert unknown indices: other threads may be looking up names
+  static std::string const unknown = "";
+  auto const& names = getRegisteredNames();
+  auto const iter = names.find(typeIdx);
+  return iter != names.end() ? iter->second : unknown;
 }
 
 template <typename ObjT>
diff --git a/src/checkpoint/dispatch/vrt/serialize_instantiator.h b/src/checkpoint/dispatch/vrt/serialize_instantiator.h
index bf286d0..6cf3ed5 100644
--- a/src/checkpoint/dispatch/vrt/serialize_instantiator.h
+++ b/src/checkpoint/dispatch/vrt/serialize_instantiator.h
@@ -73,7 +73,10 @@ struct InstantiateIfPossible<
     // using BaseType = typename ObjT::_CheckpointVirtualSerializerBaseType;
     // linkDerivedToBase<SerializerT, ObjT, BaseType>();
     using BaseType = ::checkpoint::dispatch::vrt::checkpoint_base_type_t<ObjT>;
-    linkDerivedToBase<SerializerT, ObjT, BaseType>();
+    // Do it once: other threads may be reading the entry later on
+    static bool const linked =
+      (linkDerivedToBase<SerializerT, ObjT, BaseType>(), true);
+    checkpoint_force_use(linked);
   }
 };
 
-- 
2.43.0


From 9df43f28ee5ef6134cd27b50e70eb2be57b5c81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 12/20] fix: construct vector elements with the documented
 precedence

---
 src/checkpoint/container/vector_serialize.h | 22 ++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/container/vector_serialize.h b/src/checkpoint/container/vector_serialize.h
index e7f6922..3c928dc 100644
--- a/src/checkpoint/container/vector_serialize.h
+++ b/src/checkpoint/container/vector_serialize.h
@@ -73,7 +73,27 @@ void constructVectorData(
   SerialSizeType const vec_size, std::vector<T, VectorAllocator>& vec,
   isDefaultConsType<T>* = nullptr
 ) {
-  vec.resize(vec_size);
+  using Traits = SerializableTraits<T, void>;
+
+  if constexpr (Traits::is_tagged_constructible or Traits::is_reconstructible) {
+    // These take precedence over the default constructor
+    using Alloc = dispatch::Allocator<T>;
+    using Reconstructor =
+      dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
+
+    // Deserializing in place: elements already there are replaced
+    vec.clear();
+
+    Alloc allocated;
+    for (SerialSizeType i = 0; i < vec_size; ++i) {
+      dispatch::ReconstructedPtr<T> reconstructed(
+        Reconstructor::construct(allocated.buf)
+      );
+      vec.emplace_back(std::move(*reconstructed));
+    }
+  } else {
+    vec.resize(vec_size);
+  }
 }
 
 template <typename T, typename VectorAllocator>
-- 
2.43.0


From d44fdfc6e7206e6b0e047891d8d68248f02b2fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 13/20] fix: report every failure to allocate space for a file

Only ENOSPC was treated as an error. With a full quota (EDQUOT) or an I/O
error the write to the mapping that follows ends the process with SIGBUS.
---
 src/checkpoint/buffer/io_buffer.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/buffer/io_buffer.cc b/src/checkpoint/buffer/io_buffer.cc
index 6a36e77..7102699 100644
--- a/src/checkpoint/buffer/io_buffer.cc
+++ b/src/checkpoint/buffer/io_buffer.cc
@@ -149,7 +149,13 @@ void IOBuffer::setupForWrite() {
 
   ret = fallocate(fd_, 0, 0, size_);
 
-  if (ret != 0 and errno == ENOSPC) {
+  /*
+   * A file system without fallocate is fine, but if there is no room (ENOSPC,
+   * EDQUOT, ...) writing to the mapping below would end the process
+   */
+  if (
+    ret != 0 and errno != EOPNOTSUPP and errno != ENOSYS and errno != EINTR
+  ) {
     auto err = std::string("fallocate failed on file: errno=") +
                std::to_string(errno) + ": " + strerror(errno);
     throw std::runtime_error(err);
-- 
2.43.0


From 6e8d4070fa5a10697dab149d9db453605ff0ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:06 +0000
Subject: [PATCH 14/20] fix: an optional of a type that can only be moved can
 be deserialized

---
 src/checkpoint/container/optional_serialize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checkpoint/container/optional_serialize.h b/src/checkpoint/container/optional_serialize.h
index c8064f2..1d8eca1 100644
--- a/src/checkpoint/container/optional_serialize.h
+++ b/src/checkpoint/container/optional_serialize.h
@@ -68,7 +68,7 @@ void deserializeOptional(SerializerT& s, std::optional<T>& optional) {
       ValReconstructor::construct(valAllocated.buf)
     );
     s | *value;
-    optional = *value;
+    optional = std::move(*value);
   } else {
     optional.reset();
   }
-- 
2.43.0


From 5e7d38922466cf8def906f75cf530a4a4f9eba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:56 +0000
Subject: [PATCH 15/20] fix: a variant with repeated alternatives did not
 compile

---
 src/checkpoint/container/variant_serialize.h | 26 +++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/checkpoint/container/variant_serialize.h b/src/checkpoint/container/variant_serialize.h
index c7fbc0e..2f6e639 100644
--- a/src/checkpoint/container/variant_serialize.h
+++ b/src/checkpoint/container/variant_serialize.h
@@ -52,16 +52,14 @@
 
 namespace checkpoint::detail {
 
-template <typename... Args>
+template <std::size_t cur, typename... Args>
 struct SerializeEntry;
 
-template <typename Arg, typename... Args>
-struct SerializeEntry<Arg, Args...> {
+template <std::size_t cur, typename Arg, typename... Args>
+struct SerializeEntry<cur, Arg, Args...> {
 
   template <typename SerializerT, typename VariantT>
-  static void serialize(
-    SerializerT& s, VariantT& v, std::size_t entry, std::size_t cur
-  ) {
+  static void serialize(SerializerT& s, VariantT& v, std::size_t entry) {
     if (entry == cur) {
       if (s.isUnpacking()) {
         using Alloc = dispatch::Allocator<Arg>;
@@ -72,22 +70,20 @@ struct SerializeEntry<Arg, Args...> {
           Reconstructor::construct(allocated.buf)
         );
         s | *reconstructed;
-        v = std::move(*reconstructed);
+        v.template emplace<cur>(std::move(*reconstructed));
       } else {
-        s | std::get<Arg>(v);
+        s | std::get<cur>(v);
       }
     } else {
-      SerializeEntry<Args...>::serialize(s, v, entry, cur+1);
+      SerializeEntry<cur + 1, Args...>::serialize(s, v, entry);
     }
   }
 };
 
-template <>
-struct SerializeEntry<> {
+template <std::size_t cur>
+struct SerializeEntry<cur> {
   template <typename SerializerT, typename VariantT>
-  static void serialize(
-    SerializerT&, VariantT&, std::size_t, std::size_t
-  ) {
+  static void serialize(SerializerT&, VariantT&, std::size_t) {
     // base case
   }
 };
@@ -121,7 +117,7 @@ template <typename SerializerT, typename... Args>
 void serialize(SerializerT& s, std::variant<Args...>& v) {
   std::size_t entry = v.index();
   s | entry;
-  detail::SerializeEntry<Args...>::serialize(s, v, entry, 0);
+  detail::SerializeEntry<0, Args...>::serialize(s, v, entry);
 }
 
 } /* end namespace checkpoint */
-- 
2.43.0


From ce07e3fbccd51b29c464d52a116ea5ef08824037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:56 +0000
Subject: [PATCH 16/20] fix: lists and deques of containers of move-only
 elements did not compile

---
 src/checkpoint/container/list_serialize.h | 28 ++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/checkpoint/container/list_serialize.h b/src/checkpoint/container/list_serialize.h
index 30c7291..d08bcb6 100644
--- a/src/checkpoint/container/list_serialize.h
+++ b/src/checkpoint/container/list_serialize.h
@@ -51,6 +51,7 @@
 
 #include <list>
 #include <deque>
+#include <type_traits>
 
 namespace checkpoint {
 
@@ -62,15 +63,26 @@ deserializeOrderedElems(
   Serializer& s, ContainerT& cont, typename ContainerT::size_type size,
   isCopyConstructible<ElmT>* = nullptr
 ) {
-  using Alloc = dispatch::Allocator<ElmT>;
-  using Reconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
+  using Traits = SerializableTraits<ElmT, void>;
+
+  if constexpr (
+    std::is_default_constructible<ElmT>::value and
+    not Traits::is_tagged_constructible and not Traits::is_reconstructible
+  ) {
+    // A container of elements that can only be moved claims to be copyable
+    cont.resize(size);
+  } else {
+    using Alloc = dispatch::Allocator<ElmT>;
+    using Reconstructor =
+      dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
+
+    Alloc allocated;
+    dispatch::ReconstructedPtr<ElmT> reconstructed(
+      Reconstructor::construct(allocated.buf)
+    );
+    cont.resize(size, *reconstructed);
+  }
 
-  Alloc allocated;
-  dispatch::ReconstructedPtr<ElmT> reconstructed(
-    Reconstructor::construct(allocated.buf)
-  );
-  cont.resize(size, *reconstructed);
   for (auto& val : cont) {
     s | val;
   }
-- 
2.43.0


From 3ce5223a1d791ba466e35428b2bdbd66196a3382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:43 +0000
Subject: [PATCH 17/20] fix: serialize only the slots of a Kokkos::UnorderedMap
 that are in use

A slot that is not in use holds a default or an erased key. When that key
was in the map, its entry was written again for every such slot, while the
size said how many to read: the wrong entries were restored and the rest of
the image was read at the wrong place.
---
 src/checkpoint/container/kokkos_unordered_map_serialize.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/checkpoint/container/kokkos_unordered_map_serialize.h b/src/checkpoint/container/kokkos_unordered_map_serialize.h
index 8118345..c807924 100644
--- a/src/checkpoint/container/kokkos_unordered_map_serialize.h
+++ b/src/checkpoint/container/kokkos_unordered_map_serialize.h
@@ -68,9 +68,10 @@ void serializeKokkosUnorderedMapElems(
     typename Kokkos::UnorderedMap<Key, Value, Device, Hasher, EqualTo>::size_type;
 
   for (mapSizeType i = 0; i < map.capacity(); i++) {
-    Key keyAtI = map.key_at(i);
-    if (map.exists(keyAtI)) {
-      Value val = map.value_at(map.find(keyAtI));
+    // A slot that is not in use may hold a key that exists elsewhere in the map
+    if (map.valid_at(i)) {
+      Key keyAtI = map.key_at(i);
+      Value val = map.value_at(i);
 
       s | keyAtI;
       s | val;
-- 
2.43.0


From e797ae7f0227156843a4b72feb971e5705b6d9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:59 +0000
Subject: [PATCH 18/20] fix: destroy the keys and values reconstructed for a
 Kokkos::UnorderedMap

They were constructed in a local buffer and never destroyed, so whatever
they still owned was leaked.
---
 src/checkpoint/container/kokkos_unordered_map_serialize.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/checkpoint/container/kokkos_unordered_map_serialize.h b/src/checkpoint/container/kokkos_unordered_map_serialize.h
index c807924..e008faa 100644
--- a/src/checkpoint/container/kokkos_unordered_map_serialize.h
+++ b/src/checkpoint/container/kokkos_unordered_map_serialize.h
@@ -103,8 +103,12 @@ void deserializeInsertElems(
   KeyAlloc keyAllocated;
   ValueAlloc valAllocated;
   for (SerialSizeType i = 0; i < map_size; i++) {
-    auto* key = KeyReconstructor::construct(keyAllocated.buf);
-    auto* val = ValReconstructor::construct(valAllocated.buf);
+    dispatch::ReconstructedPtr<Key> key(
+      KeyReconstructor::construct(keyAllocated.buf)
+    );
+    dispatch::ReconstructedPtr<Value> val(
+      ValReconstructor::construct(valAllocated.buf)
+    );
 
     s | *key;
     s | *val;
-- 
2.43.0


From 45b4aa0c5422d231a653bb6f3ef25dbcc17485e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:59 +0000
Subject: [PATCH 19/20] fix: in-place deserialization of a Kokkos::UnorderedMap
 kept old entries

The map was rehashed, which keeps its entries, and the serialized entries
were inserted next to them (an existing key kept its old value).
---
 src/checkpoint/container/kokkos_unordered_map_serialize.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/container/kokkos_unordered_map_serialize.h b/src/checkpoint/container/kokkos_unordered_map_serialize.h
index e008faa..2cdb821 100644
--- a/src/checkpoint/container/kokkos_unordered_map_serialize.h
+++ b/src/checkpoint/container/kokkos_unordered_map_serialize.h
@@ -97,8 +97,10 @@ void deserializeInsertElems(
   using ValReconstructor =
     dispatch::Reconstructor<typename dispatch::CleanType<Value>::CleanT>;
 
-  // resize unordered map
+  // resize unordered map: rehash moves it to memory of its own, after which the
+  // entries it held before (if it is deserialized in place) can be dropped
   map.rehash(map_capacity);
+  map.clear();
 
   KeyAlloc keyAllocated;
   ValueAlloc valAllocated;
-- 
2.43.0


From 627a737cedc0d15d075ce8f0dfc2ed4e03133997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:59 +0000
Subject: [PATCH 20/20] fix: size views of const elements with their elements

The elements were copied to the serialized temporary only for packing, so
sizing a view of, say, const strings counted empty strings and the buffer
was too small.
---
 src/checkpoint/container/view_serialize.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/container/view_serialize.h b/src/checkpoint/container/view_serialize.h
index e4dfe74..e93f60e 100644
--- a/src/checkpoint/container/view_serialize.h
+++ b/src/checkpoint/container/view_serialize.h
@@ -421,7 +421,8 @@ inline void serialize_const(SerializerT& s, Kokkos::View<T,Args...>& view) {
   using ViewType = Kokkos::View<T,Args...>;
   using T_non_const = typename ViewType::traits::non_const_data_type;
   Kokkos::View<T_non_const,Args...> tmp_non_const(view.label(), view.layout());
-  if (s.isPacking()) {
+  // Needed for sizing as well: the size may depend on the elements
+  if (!s.isUnpacking()) {
     deepCopyWithLocalFence(tmp_non_const, view);
   }
   serialize_impl(s, tmp_non_const);
-- 
2.43.0

