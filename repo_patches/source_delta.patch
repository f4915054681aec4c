From 8842c679404910ad4614f4d462a91676aa0e5fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 01/60] fix: construct cyclic quantities from negative
 multiples of N in canonical form

---
 include/Conserved/quantity.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Conserved/quantity.h b/include/Conserved/quantity.h
index 76ed977..0815814 100644
--- a/include/Conserved/quantity.h
+++ b/include/Conserved/quantity.h
@@ -93,7 +93,7 @@ class C
 	 *
 	 *
 	 */
-	constexpr C(int16_t _val) noexcept : val(  (_val != -N)*(_val < 0) * N + (_val % N) )
+	constexpr C(int16_t _val) noexcept : val(((_val % N) < 0) * N + (_val % N))
 	{
 		/*
 		 * A quick explanation of the init line for val:
-- 
2.43.0


From 6120fba0f9b80827ba82c46fa6a33da52d804b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 02/60] fix: composition of cyclic quantities overflowed for
 orders above 2^15

---
 include/Conserved/quantity.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Conserved/quantity.h b/include/Conserved/quantity.h
index 0815814..499baf6 100644
--- a/include/Conserved/quantity.h
+++ b/include/Conserved/quantity.h
@@ -119,8 +119,9 @@ class C
 
 	constexpr C &op(C other, bool cond) noexcept
 	{
-		val += cond * other.val;
-		val -= (val >= N) * N;
+		// computed with 32 bits: for N > 2^15 the sum of two values doesn't fit in 16 bits.
+		const uint32_t sum = static_cast<uint32_t>(val) + cond * other.val;
+		val = static_cast<uint16_t>(sum - (sum >= N) * N);
 		return *this;
 	}
 
-- 
2.43.0


From 8c3a2e35e76da6dc390a006bcebcf07c6dd1ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 03/60] fix: copy assigning an any_quantity of a different
 concrete type or to a moved-from one

---
 include/Conserved/Composite/cquantity.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Conserved/Composite/cquantity.h b/include/Conserved/Composite/cquantity.h
index 47cb85e..56d7694 100644
--- a/include/Conserved/Composite/cquantity.h
+++ b/include/Conserved/Composite/cquantity.h
@@ -239,7 +239,10 @@ inline any_quantity any_quantity::inverse() &&
 }
 inline any_quantity_ref any_quantity::operator=(const any_quantity &other)
 {
-	*impl = *other.impl;
+	if (impl and other.impl and impl->same_type(*other.impl))
+		*impl = *other.impl; // same concrete type: references to the content stay valid.
+	else
+		impl = any_quantity(other).impl;
 	return *this;
 }
 inline void any_quantity::swap(any_quantity_ref other) { impl->swap(other); }
-- 
2.43.0


From be3e20c0d1e201299438b6e50671a9e8647dfe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 04/60] fix: default constructed any_quantity_vector can be
 copied, compared and measured; conversion from a concrete rvalue keeps the
 values

---
 include/Conserved/Composite/quantity_vector.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/Conserved/Composite/quantity_vector.h b/include/Conserved/Composite/quantity_vector.h
index 9fa4640..99f8023 100644
--- a/include/Conserved/Composite/quantity_vector.h
+++ b/include/Conserved/Composite/quantity_vector.h
@@ -42,7 +42,7 @@ public:
 
 	any_quantity_vector(std::unique_ptr<vquantity_vector>&& _ptr) : ptr(std::move(_ptr)) {}
 	any_quantity_vector() = default;
-	any_quantity_vector(const any_quantity_vector& other) : ptr(other.ptr->clone()) {}
+	any_quantity_vector(const any_quantity_vector& other) : ptr(other.ptr ? other.ptr->clone() : nullptr) {}
 	any_quantity_vector(any_quantity_vector&& other) : ptr(std::move(other.ptr)) {}
 	any_quantity_vector(size_t cnt, any_quantity_cref val) : ptr(val.make_vector(cnt)) {}
 	/**
@@ -65,7 +65,7 @@ public:
 	template <class Conc_cgroup, class Allocator, class = std::enable_if_t<is_conc_cgroup_impl<Conc_cgroup>::value>>
 	any_quantity_vector(quantity_vector<Conc_cgroup, Allocator>&& other) : ptr(std::make_unique<quantity_vector<Conc_cgroup, Allocator>>())
 	{
-		*ptr = std::move(other);
+		static_cast<quantity_vector<Conc_cgroup, Allocator>&>(*ptr) = std::move(other);
 	}
 
 	any_quantity_vector& operator=(any_quantity_vector other)
@@ -76,7 +76,8 @@ public:
 
 	bool operator==(const any_quantity_vector& other) const
 	{
-		return ptr and *ptr == *(other.ptr);
+		if (not ptr or not other.ptr) return empty() and other.empty();
+		return *ptr == *(other.ptr);
 	}
 	bool operator!=(const any_quantity_vector& other) const
 	{
@@ -137,15 +138,15 @@ public:
 	// capacity
 	[[nodiscard]] bool empty() const
 	{
-		return ptr->empty();
+		return not ptr or ptr->empty();
 	}
 	[[nodiscard]] size_t size() const
 	{
-		return ptr->size();
+		return ptr ? ptr->size() : 0;
 	}
 	[[nodiscard]] size_t max_size() const
 	{
-		return ptr->max_size();
+		return ptr ? ptr->max_size() : 0;
 	}
 	void reserve(size_t n)
 	{
@@ -153,7 +154,7 @@ public:
 	}
 	[[nodiscard]] size_t capacity() const
 	{
-		return ptr->capacity();
+		return ptr ? ptr->capacity() : 0;
 	}
 	void shrink_to_fit()
 	{
-- 
2.43.0


From 80e8c08f9bcaf197fcf3e9dba3be4a0443949d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 05/60] fix: comparing the iterators of a default constructed
 any_quantity_vector

---
 include/Conserved/Composite/quantity_vector_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Conserved/Composite/quantity_vector_impl.h b/include/Conserved/Composite/quantity_vector_impl.h
index 35dda66..9df03e2 100644
--- a/include/Conserved/Composite/quantity_vector_impl.h
+++ b/include/Conserved/Composite/quantity_vector_impl.h
@@ -130,7 +130,7 @@ struct cgroup_iterator
 	                                                       any_quantity, any_quantity_ref, vquantity *, std::ptrdiff_t>;
 	any_quantity_ref operator*() const { return *it; }
 	vquantity *operator->() const { return it; }
-	base_type::difference_type operator-(cgroup_iterator rhs) { return ar->ptr_diff(it, rhs.it); }
+	base_type::difference_type operator-(cgroup_iterator rhs) { return ar ? ar->ptr_diff(it, rhs.it) : 0; }
 	cgroup_iterator &operator+=(base_type::difference_type n)
 	{
 		it = ar->ptr_add(it, n);
-- 
2.43.0


From f680c3996b0aee4c9f5b45244e226dbc7c137bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:05 +0000
Subject: [PATCH 06/60] fix: reserve on a default constructed
 any_quantity_vector dereferenced a null pointer

---
 include/Conserved/Composite/quantity_vector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Conserved/Composite/quantity_vector.h b/include/Conserved/Composite/quantity_vector.h
index 99f8023..d86bbae 100644
--- a/include/Conserved/Composite/quantity_vector.h
+++ b/include/Conserved/Composite/quantity_vector.h
@@ -150,6 +150,7 @@ public:
 	}
 	void reserve(size_t n)
 	{
+		if (not ptr) throw std::runtime_error( fmt::format("{} cannot be called with unitialized any_quantity_vector.",__func__ ) );
 		ptr->reserve(n);
 	}
 	[[nodiscard]] size_t capacity() const
-- 
2.43.0


From b910f3fb18a5068f5f177e2340f03cced802408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 07/60] fix: hinted insertion in a flat_map searched the wrong
 side of a hint

The const overload of use_hint bounded the search by the hint when the key is
above it, breaking the ordering of the map.
---
 include/blockTensor/flat_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 9f1e87e..750ee78 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -757,7 +757,7 @@ class flat_map
 		bool is_end = hint == cend();
 		hint = hint - 1*is_end;// avoid dereferencing the end iterator, which isn't a valid value. It an acceptable hint.
 		const_iterator first = comp(*hint, key) ? hint : cbegin();
-		const_iterator last = comp(key, *hint) ? cend() : hint + 1;
+		const_iterator last = comp(key, *hint) ? hint + 1 : cend();
 		return std::make_pair(first, last);
 	}
 	std::pair<iterator, iterator> use_hint(iterator hint,const key_type &key)
-- 
2.43.0


From 8bb5f4755a43c179977d87ab738b46a228daf6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 08/60] fix: erasing an absent key from a flat_map removed the
 next key, or dereferenced the end

---
 include/blockTensor/flat_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 750ee78..c6ea72d 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -585,11 +585,11 @@ class flat_map
 	size_type erase(const key_type &k)
 	{
 		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
+		if (it == end() or comp(k, *it))
 		{
 			return 0;
 		}
-		content.erase(it);
+		content.erase(it.base_reference());
 		return 1;
 	}
 	void swap(flat_map &other) noexcept
-- 
2.43.0


From b423f7e1a1171ba1fe1a1425f0c33685c7049307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 09/60] fix: bounds of a flat_map dereferenced the end and lost
 the position of absent keys

---
 include/blockTensor/flat_map.h | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index c6ea72d..745542d 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -682,8 +682,7 @@ class flat_map
 	bool contains(const key_type &k) const { return count(k); }
 	std::pair<iterator, iterator> equal_range(const key_type &k)
 	{
-		auto it = find(k);
-		return std::make_pair(it, it == end() ? end() : it + 1);
+		return std::make_pair(lower_bound(k), upper_bound(k));
 	}
 	std::pair<const_iterator, const_iterator> equal_range(const key_type &k) const
 	{
@@ -693,29 +692,21 @@ class flat_map
 	iterator lower_bound(const key_type &k)
 	{
 		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(k, *it))
-			it = end();
 		return it;
 	}
 	const_iterator lower_bound(const key_type &k) const
 	{
 		auto it = std::lower_bound(cbegin(), cend(), k, comp);
-		if (comp(k, *it))
-			it = end();
 		return it;
 	}
 	iterator upper_bound(const key_type &k)
 	{
 		auto it = std::upper_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
-			it = end();
 		return it;
 	}
 	const_iterator upper_bound(const key_type &k) const
 	{
 		auto it = std::upper_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
-			it = end();
 		return it;
 	}
 
-- 
2.43.0


From abf2f62f1d1b4b19d01a170c5bd5c0e19410907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 10/60] fix: emplace in a flat_map: compiles without a hint,
 returns the colliding element with one

---
 include/blockTensor/flat_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 745542d..563da2a 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -500,7 +500,7 @@ class flat_map
 		auto it = std::lower_bound(begin(), end(), val, comp);
 		if (it  == end() or comp(val, *it))
 		{
-			it = content.emplace(it.it, std::move(val));
+			it.it = content.emplace(it.it, std::move(val));
 			success = true;
 		}
 		return std::make_pair(it, success);
@@ -520,6 +520,8 @@ class flat_map
 			it.it = content.emplace(hint.it, std::move(val));
 			success = true;
 		}
+		else
+			it = erase(hint, hint); // convert the const_iterator in an iterator
 		return std::make_pair(it, success);
 	}
 	template <class... Args>
-- 
2.43.0


From a20e5c6fc84abe9bd2edc06abfd7e09492d361bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 11/60] fix: merging flat_maps applied the no collision rule to
 elements already present

The elements of the destination below the smallest added key were handed to the
rule meant for the added elements: a.add(b, alpha) scaled leading blocks of a.
---
 include/blockTensor/flat_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 563da2a..8065854 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -420,8 +420,8 @@ class flat_map
 		assert(
 		    lastmfirst == 0 or
 		    movembegin == lastmfirst); // we've copied everything, or we still have some stuff to copy and the room necessary
-		std::copy_backward(first, last, move_to_end);
-		std::for_each(begin(), move_to_end, [nocollision](auto &&x) { nocollision(std::get<1>(x)); });
+		auto copied = std::copy_backward(first, last, move_to_end);
+		std::for_each(copied, move_to_end, [nocollision](auto &&x) { nocollision(std::get<1>(x)); });
 	}
 
 	template <class M>
-- 
2.43.0


From d34f44fb5736aa1a7e661178e299de428f005181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 12/60] fix: merging a flat_map rvalue applied the no collision
 rule to the wrong elements

---
 include/blockTensor/flat_map.h | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 8065854..d6497f2 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -622,26 +622,9 @@ class flat_map
 	void merge(flat_map<key_type, mapped_type, C2, allocator_type> &&source, Collision &&collision,
 	           NoCollision &&nocollision)
 	{
-		if (source.capacity() >= source.size() + size()) // reuse source's resources if it avoid doing an allocation.
-		{
-			std::swap(content, source.content); // if the source has enough capacity, we'll keep it instead.
-			insert(
-			    source.begin(), source.end(),
-			    [collision](auto &a, auto &b) {
-				    // b is const in the context that call this lambda function.
-				    // But in this present context, we know it's actually a reference to a non-const value.
-				    // Casting away const in order to change a value should almost never be used.
-				    auto &c = const_cast<std::remove_const_t<std::remove_reference_t<decltype(b)>> &>(b);
-				    std::swap(a, c);
-				    collision(a, c);
-			    },
-			    std::forward<NoCollision>(nocollision));
-		}
-		else
-		{
-			insert(source.begin(), source.end(), std::forward<Collision>(collision),
-			       std::forward<NoCollision>(nocollision));
-		}
+		// source's storage can't be reused: nocollision applies to the elements of source, not to those of this.
+		insert(source.begin(), source.end(), std::forward<Collision>(collision),
+		       std::forward<NoCollision>(nocollision));
 	}
 	template <class C2>
 	void merge(const flat_map<key_type, mapped_type, C2, allocator_type> &source)
-- 
2.43.0


From 0439fae51419324674278ee765625ecbac7ae965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 13/60] fix: a flat_map built from its content type kept
 duplicate keys

---
 include/blockTensor/flat_map.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index d6497f2..a3b2c17 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -148,8 +148,12 @@ class flat_map
 	{
 	}
 	flat_map(const allocator_type &_alloc = allocator_type()) : comp(), content(_alloc) {}
-	flat_map(content_t &&in) : comp(), content(std::move(in)) { sort(content.begin(), content.end()); }
-	flat_map(const content_t &in) : comp(), content((in)) { sort(content.begin(), content.end()); }
+	flat_map(content_t &&in) : comp(), content(std::move(in))
+	{
+		sort(content.begin(), content.end());
+		content.erase(filter_unique(content.begin(), content.end()), content.end());
+	}
+	flat_map(const content_t &in) : flat_map(content_t(in)) {}
 	template <class InputIt>
 	flat_map(InputIt first, InputIt last, const key_compare &_comp = key_compare(),
 	         const allocator_type &_alloc = allocator_type())
-- 
2.43.0


From 37a47a3cff1f1d1b28bfeac863f68c0c68a0dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 14/60] fix: which value survives a key collision in a flat_map
 depended on an unstable sort

---
 include/blockTensor/flat_map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index a3b2c17..cc38e76 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -715,15 +715,15 @@ class flat_map
 	 * @param last iterator to the element after the range to sort
 	 *
 	 */
-	void sort(iterator first, iterator last) { std::sort(first, last, comp); }
-	void sort() { std::sort(begin(), end(), comp); }
+	void sort(iterator first, iterator last) { std::stable_sort(first, last, comp); }
+	void sort() { std::stable_sort(begin(), end(), comp); }
 
   protected:
 	value_compare comp;
 
   private:
 	content_t content;
-	void sort(typename content_t::iterator first, typename content_t::iterator last) { std::sort(first, last, comp); }
+	void sort(typename content_t::iterator first, typename content_t::iterator last) { std::stable_sort(first, last, comp); }
 	// void remove_collisions(iterator first = begin(), iterator last = end())
 	// { //assume a sorted array
 	// 	auto beg = first while (first != last)
-- 
2.43.0


From 6973650739e950817fd25b6330f679004a262f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:02 +0000
Subject: [PATCH 15/60] fix: reverse of a dimension list appended as many zeros
 as there are dimensions

---
 sources/dimension_manip.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sources/dimension_manip.cpp b/sources/dimension_manip.cpp
index ff1e253..514aec5 100644
--- a/sources/dimension_manip.cpp
+++ b/sources/dimension_manip.cpp
@@ -49,8 +49,7 @@ int64_t prod(torch::IntArrayRef dims, size_t start, size_t n)
 
 std::vector<int64_t> reverse(torch::IntArrayRef dims)
 {
-	std::vector<int64_t> out(dims.size());
-	out.insert(out.begin(),dims.rbegin(),dims.rend());
+	std::vector<int64_t> out(dims.rbegin(),dims.rend());
 	return out;
 }
 
-- 
2.43.0


From 1e62ce201b02972d5b27f9b4de94130330abcf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 16/60] fix: asking for a section past the end of a dimension
 was not rejected

---
 sources/btensor.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 186e177..2f34652 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -56,19 +56,19 @@ auto promote_types(caffe2::TypeMeta a, caffe2::TypeMeta b)
 	return at::promote_types(at::typeMetaToScalarType(a), at::typeMetaToScalarType(b));
 }
 
-void throw_on_bad_arg_blocks(size_t index, size_t block, size_t rank, size_t section_size)
+void throw_on_bad_arg_blocks(size_t index, size_t block, size_t rank, const btensor::index_list &sections_by_dim)
 {
 	if (index >= rank)
 		throw std::invalid_argument(fmt::format("given index {} is too large for rank {}.", index, rank));
-	if (block >= section_size)
-		std::invalid_argument(fmt::format("there are only {} blocks along the dimension {}. block requested {}",
-		                                  section_size, index, block));
+	if (block >= static_cast<size_t>(sections_by_dim[index]))
+		throw std::invalid_argument(fmt::format("there are only {} blocks along the dimension {}. block requested {}",
+		                                        sections_by_dim[index], index, block));
 }
 
 size_t btensor::section_size(size_t index, size_t block) const
 {
 #ifndef NDEBUG
-	throw_on_bad_arg_blocks(index, block, rank, sections_sizes[index]);
+	throw_on_bad_arg_blocks(index, block, rank, sections_by_dim);
 	assert(index < sections_by_dim.size());
 #endif
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);
@@ -78,7 +78,7 @@ size_t btensor::section_size(size_t index, size_t block) const
 any_quantity_cref btensor::section_conserved_qtt(size_t index, size_t block) const
 {
 #ifndef NDEBUG
-	throw_on_bad_arg_blocks(index, block, rank, sections_sizes[index]);
+	throw_on_bad_arg_blocks(index, block, rank, sections_by_dim);
 #endif
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);
 	return c_vals[ori + block];
@@ -125,7 +125,7 @@ std::tuple<any_quantity_vector::iterator, any_quantity_vector::iterator> btensor
 std::tuple<size_t, any_quantity_cref> btensor::section_size_cqtt(size_t index, size_t block) const
 {
 #ifndef NDEBUG
-	throw_on_bad_arg_blocks(index, block, rank, sections_sizes[index]);
+	throw_on_bad_arg_blocks(index, block, rank, sections_by_dim);
 #endif
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);
 	return std::tuple<size_t, any_quantity_cref>(sections_sizes[ori + block], any_quantity_cref(c_vals[ori + block]));
-- 
2.43.0


From 69a480242825b5fb0c46533cd9a39668fbf718a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 17/60] fix: access to a block of wrong rank or out of range
 read past the labels instead of being rejected

---
 sources/btensor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 2f34652..1bf6455 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -386,7 +386,12 @@ torch::Tensor &btensor::block(const index_list &block_index) // create the block
                                                              // freestanding sparrse tensor of zeros.
 {
 	if (block_index.size() != rank)
-		std::invalid_argument(fmt::format("block index is size {}, but size {} expected", block_index.size(), rank));
+		throw std::invalid_argument(
+		    fmt::format("block index is size {}, but size {} expected", block_index.size(), rank));
+	for (size_t i = 0; i < rank; ++i)
+		if (block_index[i] < 0 or block_index[i] >= sections_by_dim[i])
+			throw std::invalid_argument(fmt::format("block index {} is out of range along dimension {}: it has {} sections",
+			                                        block_index, i, sections_by_dim[i]));
 	if (!block_conservation_rule_test(block_index))
 	{
 		auto message = fmt::format("block index {} not allowed by selection rule. {} != {}", block_index,
-- 
2.43.0


From 73dcbdf3c46832ae641e5c546bc5c78b7683eb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 18/60] fix: checking a block tensor read out of range for
 block indices of wrong rank or out of range

---
 sources/btensor.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 1bf6455..4f41749 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -423,26 +423,40 @@ std::string btensor::check_tensor(const btensor &T)
 		M += fmt::format(
 		    "number of section accross all dimension ({}) incoherent with number of specified section sizes ({})\n",
 		    total_sections, T.sections_sizes.size());
+	if (total_sections != T.c_vals.size())
+		M += fmt::format(
+		    "number of section accross all dimension ({}) incoherent with number of specified conserved quantities ({})\n",
+		    total_sections, T.c_vals.size());
+	if (M != "")
+		return M; // the blocks can't be checked against inconsistent sections.
 
 	for (const auto &a : T.blocks_list)
 	{
 		auto &ind = std::get<0>(a);
 		if (ind.size() != T.rank)
-			M += fmt::format("block index {} invalid: number of index differ from rank", std::get<0>(a));
+		{
+			M += fmt::format("block index {} invalid: number of index differ from rank\n", std::get<0>(a));
+			continue;
+		}
+		bool in_range = true;
 		any_quantity sel_test = T.selection_rule.value.neutral();
 		{
 			std::string cq = "";
 			for (auto i = 0U; i < ind.size(); ++i)
 			{
-				if (!(ind[i] < T.sections_by_dim[i]))
+				if (ind[i] < 0 or !(ind[i] < T.sections_by_dim[i]))
+				{
 					M += fmt::format(
 					    "block index {} {}th element is greater than the number of section along that dimension ({})\n",
 					    ind, i, T.sections_by_dim[i]);
+					in_range = false;
+					continue;
+				}
 				const auto &qt = T.section_conserved_qtt(i, ind[i]);
 				sel_test += qt;
 				cq += fmt::format("index {}: ", i) + fmt::format("{}\n", qt);
 			}
-			if (sel_test != T.selection_rule)
+			if (in_range and sel_test != T.selection_rule)
 			{
 				M += fmt::format("block with index {} incompatible with selection rule {}.\n conserved quantities of "
 				                 "the block: \n {}",
@@ -453,7 +467,7 @@ std::string btensor::check_tensor(const btensor &T)
 		if (sizes.size() != T.rank)
 			M += fmt::format("block with index {} has rank ({}) incompatible with the btensor ({})\n", ind,
 			                 sizes.size(), T.rank);
-		else
+		else if (in_range)
 		{
 			std::string sub = "";
 			for (auto i = 0U; i < T.rank; ++i)
-- 
2.43.0


From 29d1fd9fa7120ed535ca836757d219fad45669b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:21 +0000
Subject: [PATCH 19/60] fix: shifting the labels of a dimension left the blocks
 in violation of the selection rule

---
 include/blockTensor/btensor.h | 6 +++---
 sources/btensor.cpp           | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/blockTensor/btensor.h b/include/blockTensor/btensor.h
index 6686698..6c09112 100644
--- a/include/blockTensor/btensor.h
+++ b/include/blockTensor/btensor.h
@@ -676,7 +676,7 @@ class btensor
 	 */
 	btensor &inverse_cvals_();
 	/**
-	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the opposite shift to the
+	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the same shift to the
 	 * conservation rule.
 	 *
 	 * @param shift shift to apply
@@ -684,7 +684,7 @@ class btensor
 	 */
 	btensor cval_shift(any_quantity_cref shift, int64_t dim) const;
 	/**
-	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the opposite shift to the
+	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the same shift to the
 	 * conservation rule.
 	 *
 	 * @param shift shift to apply
@@ -1465,7 +1465,7 @@ inline torch::Tensor inverse_cvals(torch::Tensor &&tens) { return std::move(tens
 inline btensor &inverse_cvals_(btensor &tens) { return tens.inverse_cvals_(); }
 inline torch::Tensor &inverse_cvals_(torch::Tensor &tens) { return tens; }
 /**
- * @brief Shifts the conserved quantities of one dimension of the tensor, applies the opposite shift to the
+ * @brief Shifts the conserved quantities of one dimension of the tensor, applies the same shift to the
  * conservation rule.
  *
  * @param shift shift to apply
diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 4f41749..92eeeb5 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2199,7 +2199,7 @@ btensor btensor::cval_shift(any_quantity_cref shift, int64_t dim) const
 btensor &btensor::cval_shift_(any_quantity_cref shift, int64_t dim)
 {
 	shift_impl(shift, dim);
-	selection_rule.value *= shift.inverse();
+	selection_rule.value *= shift; // the blocks present keep satisfying the rule
 	return *this;
 }
 
-- 
2.43.0


From 4e0b954ae6992d7becf6c6f5373cda73ff75d10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 20/60] fix: negative positions other than -1 were accepted
 when slicing a block tensor

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 92eeeb5..0cbe0f6 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -526,7 +526,7 @@ btensor btensor::shape_from(const std::vector<int64_t> &dims) const
 		auto it_size = sizes.begin();
 		while (it_dims != dims.end())
 		{
-			size_compat &= *it_dims < *it_size or *it_dims == -1;
+			size_compat &= (*it_dims >= 0 and *it_dims < *it_size) or *it_dims == -1;
 			++it_dims;
 			++it_size;
 		}
-- 
2.43.0


From ad3aad0f2d3d9a3ac611a6308dae0b0c30fff2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 21/60] fix: a slice of a block tensor kept blocks of other
 sections of the trailing sliced dimensions

---
 sources/btensor.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 0cbe0f6..805f005 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -694,13 +694,12 @@ btensor btensor::basic_create_view(const std::vector<int64_t> &dims, bool preser
 		bool keep = true;
 		auto out_it = out_index.begin();
 		auto filter_it = filter.begin();
-		for (auto index_it = index_in.begin(); index_it != index_in.end() and out_it != out_index.end() and keep;
-		     ++index_it, ++filter_it)
+		for (auto index_it = index_in.begin(); index_it != index_in.end() and keep; ++index_it, ++filter_it)
 		{
-			*out_it = *index_it;
 			auto sliced = *filter_it == -1;
 			keep &= sliced or *index_it == *filter_it;
-			out_it += sliced;
+			if (sliced)
+				*out_it++ = *index_it;
 		}
 		return std::make_tuple(keep, out_index);
 	};
-- 
2.43.0


From 18b79b797871a7245e867995c70f7979a6573d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 22/60] fix: assigning a slice of a block tensor read past the
 end of the block index

---
 sources/btensor.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 805f005..451185b 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -736,9 +736,8 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 		auto itv = value_index.begin();
 		for (auto ito = out.begin(); ito != out.end(); ++ito)
 		{
-			bool isNegative1 = (*ito) == -1;
-			*ito = (*itv) * isNegative1 + (!isNegative1) * (*ito);
-			itv += isNegative1;
+			if (*ito == -1)
+				*ito = *itv++;
 		}
 		return out;
 	};
-- 
2.43.0


From ab2c7dbea08ba7d352acbf1e67efca7776b7feac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 23/60] fix: assigning a slice of a block tensor left the old
 values where the assigned tensor has no block

---
 sources/btensor.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 451185b..16f2126 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -741,6 +741,22 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 		}
 		return out;
 	};
+	// a block that value doesn't have is made of zeros
+	for (auto &index_block : this->blocks_list)
+	{
+		const auto &index = std::get<0>(index_block);
+		index_list value_index;
+		bool in_slice = true;
+		for (size_t i = 0; i < index.size() and in_slice; ++i)
+		{
+			if (blocks[i] == -1)
+				value_index.push_back(index[i]);
+			else
+				in_slice = index[i] == blocks[i];
+		}
+		if (in_slice and !value.blocks_list.contains(value_index))
+			std::get<1>(index_block).index_put_(element, 0);
+	}
 	for (const auto &index_block : value)
 	{
 		const auto &index = std::get<0>(index_block);
-- 
2.43.0


From e6d87d9146da99238e3bf9bb26e6daa0fa981b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 24/60] fix: tensors of different rank, or with sections
 divided otherwise among the dimensions, passed for the same shape

---
 sources/btensor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 16f2126..bf6c937 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2255,7 +2255,8 @@ void btensor::shift_impl(any_quantity_cref shift, int64_t dim)
 
 bool btensor::test_same_shape(const btensor &a, const btensor &b)
 {
-	if (!(a.c_vals == b.c_vals) or !(a.selection_rule == b.selection_rule) or !(a.sections_sizes == b.sections_sizes))
+	if (!(a.c_vals == b.c_vals) or !(a.selection_rule == b.selection_rule) or
+	    !(a.sections_sizes == b.sections_sizes) or !(a.sections_by_dim == b.sections_by_dim))
 		return false;
 	return true;
 }
@@ -2266,7 +2267,7 @@ void btensor::add_tensor_check(const btensor &a, const btensor &b)
 		throw non_matching_cvals("The conserved quantities of the tensors must be a perfect match");
 	if (!(a.selection_rule == b.selection_rule))
 		throw bad_selection_rule("The selection rules of the tensors must be the same");
-	if (!(a.sections_sizes == b.sections_sizes))
+	if (!(a.sections_sizes == b.sections_sizes) or !(a.sections_by_dim == b.sections_by_dim))
 		throw non_matching_sizes("The blocks of the tensors must have the same dimensions");
 }
 
-- 
2.43.0


From 2442fb1f7bf3fefb56c192d2448621152caba814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 25/60] fix: the in place and out forms of tensorgdot lost the
 result when the output could not be viewed as a matrix

---
 sources/tensorgdot.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/tensorgdot.cpp b/sources/tensorgdot.cpp
index e17b31f..5b93de0 100644
--- a/sources/tensorgdot.cpp
+++ b/sources/tensorgdot.cpp
@@ -113,6 +113,8 @@ torch::Tensor& tensorgdot_out(torch::Tensor& output, const torch::Tensor& add_te
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	at::addmm_out(rout, add_tens.reshape({size1, size2}), t1, t2, beta, alpha);
+	if (!rout.is_alias_of(output)) // reshape had to make a copy
+		output.copy_(rout.reshape(output.sizes()));
 	return output;
 }
 
@@ -147,6 +149,8 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	rout.addmm_(t1, t2, beta, alpha);
+	if (!rout.is_alias_of(output)) // reshape had to make a copy
+		output.copy_(rout.reshape(output.sizes()));
 	return output;
 }
 
@@ -189,6 +193,8 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	rout.addmm_(t1, t2, beta, alpha);
+	if (!rout.is_alias_of(output)) // reshape had to make a copy
+		output.copy_(rout.reshape(output.sizes()));
 	return output;
 }
 
-- 
2.43.0


From 85c5a977fe2c6d4ee8d5343d32d7f7e13af1d674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 26/60] fix: the documentation of tensorgdot had the roles of
 beta and alpha swapped

---
 include/tensorgdot.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/tensorgdot.h b/include/tensorgdot.h
index 929139d..02d1745 100644
--- a/include/tensorgdot.h
+++ b/include/tensorgdot.h
@@ -19,7 +19,7 @@
 namespace quantit
 {
 /**
- * @brief generalized tensordot, performs \f$ D_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
+ * @brief generalized tensordot, performs \f$ D_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * @param add The input tensor C
@@ -27,15 +27,15 @@ namespace quantit
  * @param mul2 input tensor B
  * @param dims1 list of dimensions of input1 to be summed
  * @param dims2 list of dimension of input2 to be summed
- * @param beta scalar coefficient to mulitply the result of the dot product with.
- * @param alpha scalar coefficient to scale the input tensor
+ * @param beta scalar coefficient to scale the input tensor C
+ * @param alpha scalar coefficient to mulitply the result of the dot product with.
  * @return torch::Tensor The output tensor D
  */
 torch::Tensor tensorgdot(const torch::Tensor& add, const torch::Tensor& mul1, const torch::Tensor& mul2,
                          torch::IntArrayRef dims1, torch::IntArrayRef dims2,
                          torch::Scalar beta = 1, torch::Scalar alpha = 1);
 /**
- * @brief generalized tensordot, performs \f$ C_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} ­\f$
+ * @brief generalized tensordot, performs \f$ C_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} ­\f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * 
@@ -44,8 +44,8 @@ torch::Tensor tensorgdot(const torch::Tensor& add, const torch::Tensor& mul1, co
  * @param mul2 input tensor B
  * @param dims1 list of dimensions of input1 to be summed
  * @param dims2 list of dimension of input2 to be summed
- * @param beta scalar coefficient to mulitply the result of the dot product with.
- * @param alpha scalar coefficient to scale the input tensor
+ * @param beta scalar coefficient to scale the input tensor C
+ * @param alpha scalar coefficient to mulitply the result of the dot product with.
  * @return torch::Tensor& refrence to the output tensor
  */
 torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& mul1, const torch::Tensor& mul2,
@@ -53,7 +53,7 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& mul1, con
                            torch::Scalar beta = 1, torch::Scalar alpha = 1);
 
 /**
- * generalized tensordot, performs \f$ D_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
+ * generalized tensordot, performs \f$ D_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * @param output the output tensor D
@@ -62,23 +62,23 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& mul1, con
  * @param mul2 input tensor B
  * @param dims1 list of dimensions of input1 to be summed
  * @param dims2 list of dimension of input2 to be summed
- * @param beta scalar coefficient to mulitply the result of the dot product with.
- * @param alpha scalar coefficient to scale the input tensor
+ * @param beta scalar coefficient to scale the input tensor C
+ * @param alpha scalar coefficient to mulitply the result of the dot product with.
  * @return torch::Tensor& Reference to the output tensor D
  */
 torch::Tensor& tensorgdot_out(torch::Tensor& output, const torch::Tensor& add, const torch::Tensor& mul1, const torch::Tensor& mul2,
                               torch::IntArrayRef dims1, torch::IntArrayRef dims2,
                               torch::Scalar beta = 1, torch::Scalar alpha = 1);
 /**
- * @brief generalized tensordot, performs \f$ C_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
+ * @brief generalized tensordot, performs \f$ C_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * @param output output tensor C, result of the contraction is added to it.
  * @param input1 tensor A
  * @param input2 tensor B
  * @param dims the number of dimensions to contract
- * @param beta scalar coefficient for the addition
- * @param alpha scalar coefficient for the addition
+ * @param beta scalar coefficient to scale the tensor C
+ * @param alpha scalar coefficient to mulitply the result of the dot product with.
  * @return torch::Tensor& reference to the output tensor.
  */
 torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, const torch::Tensor& input2,
-- 
2.43.0


From 174082b078482d8661fe88371da5f06cceb74d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 27/60] fix: contracting block tensors whose sections differ in
 size was not rejected

---
 sources/btensor.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index bf6c937..a69b580 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -826,6 +826,8 @@ bool btensor::check_product_compat(const btensor &in1, const btensor &in2, torch
 		auto q2 = in2.section_conserved_qtt_range(dims2[i]);
 		constexpr auto mismatch = "contracted dimensions need to match, but first "
 		                          "has {} sections along dim {}  and second has {} sections along dim {}";
+		constexpr auto mismatch_sizes = "contracted dimensions need to match, but the sections along dim {} of the left "
+		                                "tensor and dim {} of the right tensor have different sizes";
 		constexpr auto mismatch_cons_rule =
 		    "contracted conserved numbers need to sum to zero, but there "
 		    "is a violation when contracting dim {} of the left tensor with dim {} of the right tensor";
@@ -838,6 +840,19 @@ bool btensor::check_product_compat(const btensor &in1, const btensor &in2, torch
 		{
 			return false;
 		}
+		auto [sizes1, sizes1_end] = in1.section_sizes(dims1[i]);
+		auto [sizes2, sizes2_end] = in2.section_sizes(dims2[i]);
+		ok_CR = std::equal(sizes1, sizes1_end, sizes2, sizes2_end);
+		if constexpr (Throws)
+		{
+			const auto dims1i = dims1[i];
+			const auto dims2i = dims2[i];
+			TORCH_CHECK(ok_CR, fmt::format(mismatch_sizes, dims1i, dims2i));
+		}
+		else if (!ok_CR)
+		{
+			return false;
+		}
 		ok_CR = std::distance(std::get<0>(q1), std::get<1>(q1)) == std::distance(std::get<0>(q2), std::get<1>(q2));
 		auto neut = in1.selection_rule->neutral();
 		for (auto [it1, it2] = std::make_tuple(std::get<0>(q1), std::get<0>(q2)); it1 != std::get<1>(q1) and ok_CR;
-- 
2.43.0


From dbfd2253104eca258ffd541e68b5def8e5e56efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 28/60] fix: contracting a block tensor of rank 0 with nothing
 to sum over never ended

---
 sources/btensor.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index a69b580..2071da5 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2107,12 +2107,15 @@ btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, to
 		{
 			// assert(out_list_it != out_list.end());
 			auto other_curr_block = t2.begin();
-			auto this_col_end = std::lower_bound(this_col_start, t1.end(), next_index(this_col_start),
-			                                     less); // also the next column start if it's not the end.
+			// also the next column start if it's not the end. the only column of a rank 0 tensor has an empty index.
+			auto this_col_end =
+			    rank == 0 ? t1.end() : std::lower_bound(this_col_start, t1.end(), next_index(this_col_start), less);
 			while (other_curr_block != t2.end() and out_list_it != out_list.end()) // loop over all the columns of other
 			{
 				auto this_curr_block = this_col_start;
-				auto other_col_end = std::lower_bound(other_curr_block, t2.end(), next_index(other_curr_block), less);
+				auto other_col_end =
+				    other.rank == 0 ? t2.end()
+				                    : std::lower_bound(other_curr_block, t2.end(), next_index(other_curr_block), less);
 				cpt_output_block(this_curr_block, other_curr_block); // side effect: update out_block_index
 				// if (!out_btens.block_conservation_rule_test(out_block_index))// not worth it with 50 site heisenber
 				// model dmrg
-- 
2.43.0


From d59ee7b91f3fa57291fa5ba2301ca7af992245ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 29/60] fix: adding a temporary block tensor changed the left
 operand and tensors the temporary is a view of

The blocks of the left operand were not copied before the addition in place, the options were read from
a block that needs not exist, and a block with a single handle can still share its memory.
---
 sources/btensor.cpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 2071da5..da9799b 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2741,24 +2741,19 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
 	auto out = *this;
+	for (auto &a : out)
+	{
+		std::get<1>(a) = std::get<1>(a).clone();
+	}
 	out.blocks_list.merge(
 	    other.blocks_list, // must not use the move merge, no way to get the nocollision case to behave correctly
 	                       // with that variant. torch::tensor do shallow copy by default anyway, so it doesn't
 	                       // change the cost of the operations. collision
 	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
-	    // no collision
-	    [&alpha](torch::Tensor &x)
-	    {
-		    if (get_refcount(x) > 2) // greater than 2 because we've just made a temp copy for this algorithm
-		    {
-			    x = x.mul(alpha);
-		    }
-		    else
-		    {
-			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
-		    }
-	    });
-	out._options = std::get<1>(*out.begin()).options();
+	    // no collision, never in place: even with a single handle, x can be a view on the memory of another tensor
+	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });
+	if (out.begin() != out.end())
+		out._options = std::get<1>(*out.begin()).options();
 	return out;
 }
 /*!
-- 
2.43.0


From f73a3f1722cea8eed5a354f8757c3e66ae573e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 30/60] fix: adding a temporary block tensor in place changed
 tensors the temporary is a view of

---
 sources/btensor.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index da9799b..13bd660 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2784,17 +2784,8 @@ btensor &btensor::add_(btensor &&other, Scalar alpha)
 	// std::for_each(b_blocks.begin(), b_blocks.end(), [](auto &x) { std::get<1>(x) = std::get<1>(x).clone(); });
 	this->blocks_list.merge(
 	    b_blocks, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
-	    [&alpha](torch::Tensor &x)
-	    {
-		    if (get_refcount(x) > 2) // greater than 2 because we've just made a temp copy for this algorithm
-		    {
-			    x = x.mul(alpha);
-		    }
-		    else
-		    {
-			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
-		    }
-	    });
+	    // never in place: even with a single handle, x can be a view on the memory of another tensor
+	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });
 	return *this;
 }
 /**
-- 
2.43.0


From d0327d10f6f4d3e71b47672be3ffcc5fc8812cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 31/60] fix: broadcasting a size one dimension over a dimension
 with a single section kept the size one

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 13bd660..f53aa59 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1085,7 +1085,7 @@ struct mul_helpers
 				--it;
 				--larger_sec;
 				--smaller_sec;
-				if (*larger_sec > *smaller_sec) // one of them is one
+				if (*it & 1) // the smaller one is broadcast
 				{
 					std::tie(section_start, section_end, cval_start, cval_end) =
 					    larger_tensor.section_sizes_cqtts(larger_rank - n);
-- 
2.43.0


From 82a23a4038d9952f96d7505ba714a33bfef4da62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 32/60] fix: element-wise operations on block tensors with
 different section sizes were accepted

---
 sources/btensor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index f53aa59..f0671ff 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1049,7 +1049,13 @@ struct mul_helpers
 				constexpr auto message = "The section and tensor size of tensor a (section size {},tensor size {}) "
 				                         "must match the section size and tensor size"
 				                         "of tensor b (section size {}, tensor size {}) at non-singleton dimension {}";
-				if (not(*it) and *smaller_sec != *larger_sec)
+				auto same_sections = [&, &small_sec = *smaller_sec, &large_sec = *larger_sec]()
+				{
+					auto [small_begin, small_end] = smaller_tensor.section_sizes(smaller_rank - n);
+					auto [large_begin, large_end] = larger_tensor.section_sizes(larger_rank - n);
+					return small_sec == large_sec and std::equal(small_begin, small_end, large_begin);
+				};
+				if (not(*it) and not same_sections())
 				{
 					if (this_is_large)
 					{
-- 
2.43.0


From 03d74a7f97d3857fa95c0baf9d52a4c75acae8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 33/60] fix: element-wise in place operation with a tensor of
 larger rank wrote out of bounds

The documentation of mul_ announces an error.
---
 sources/btensor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index f0671ff..dc95c3e 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1267,6 +1267,9 @@ btensor &btensor::broadcast_operation_(const btensor &other, F &&f, F_ &&f_)
 	// rank for the inplace case. This is a bit of a silly decision on torch's part, since it allow reallocation if the
 	// tensor has a large enough rank.
 
+	if (rank < other.rank)
+		throw std::invalid_argument(fmt::format(
+		    "The rank of the result ({}) is larger than the rank of the tensor to modify in place ({})", other.rank, rank));
 	const auto &smaller_rank = std::min(rank, other.rank);
 	const auto &larger_rank = std::max(rank, other.rank);
 	const btensor &larger_tensor = rank == larger_rank ? *this : other;
-- 
2.43.0


From ac9ab9c9b5a9be56ea63732555a5f38ff10baf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 34/60] fix: in place power of block tensors used the in place
 form exactly where it is wrong

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index dc95c3e..b8dc75c 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1801,8 +1801,8 @@ btensor btensor::pow(const btensor &exponent) const
 btensor &btensor::pow_(const btensor &exponent)
 {
 	return broadcast_operation_(
-	    exponent, [](torch::Tensor &A, const torch::Tensor &B) { return A.pow_(B); },
-	    [](const torch::Tensor &A, const torch::Tensor &B) { return A.pow(B); });
+	    exponent, [](const torch::Tensor &A, const torch::Tensor &B) { return A.pow(B); },
+	    [](torch::Tensor &A, const torch::Tensor &B) { return A.pow_(B); });
 }
 btensor btensor::mul(const btensor &other) const
 {
-- 
2.43.0


From a9a25b7de7ef581ba3e4e4900dfda934508699c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 35/60] fix: any() of a block tensor only looked at the first
 block and was undefined without blocks

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index b8dc75c..0af6c88 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3150,12 +3150,12 @@ torch::Tensor btensor::any() const
 {
 	auto it = this->begin();
 	if (it == this->end())
-		return torch::Tensor();
+		return torch::zeros({}, torch::kBool);
 	auto out = std::get<1>(*it).any();
 	auto &out_acc = *(out.data_ptr<bool>());
 	while (it != this->end() and !out_acc)
 	{
-		out &= std::get<1>(*it).any();
+		out |= std::get<1>(*it).any();
 		++it;
 	}
 	return out;
-- 
2.43.0


From 40cd6386d559bfc96592a9b3b31e724890f05ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 36/60] fix: dividing a number by a block tensor wrote its
 blocks to unallocated memory

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 0af6c88..ea4ec78 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3207,8 +3207,8 @@ btensor operator/(const btensor::Scalar &A, const btensor &B)
 {
 	auto out = quantit::sparse_zeros_like(B);
 	out.reserve_space_(std::distance(B.begin(), B.end()));
-	std::transform(B.begin(), B.end(), out.begin(),
-	               [&A](const auto &in) { return std::make_pair(in.first, A / in.second); });
+	for (const auto &in : B)
+		out.block(in.first) = A / in.second;
 	return out;
 }
 /**
-- 
2.43.0


From f23bcdfa2f5ca48490d97f9cc1a21392f182388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 37/60] fix: squeezing all size one dimensions of a block
 tensor failed unless their labels were neutral

Like squeeze(dim), move the labels to the selection rule.
---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index ea4ec78..02c54a7 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2199,7 +2199,7 @@ btensor &btensor::squeeze_()
 	{
 		res[dim] *= !(section_number(dim) == 1 and section_size(dim, 0) == 1);
 	}
-	*this = reshape_as(shape_from(res));
+	*this = basic_create_view(res);
 	return *this;
 }
 btensor btensor::squeeze() const
-- 
2.43.0


From 92de83b47600faa6db20ecb882de62259cad92f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 38/60] fix: the sum of the elements of a block tensor broke
 its own selection rule

A tensor of rank 0 only has a block with the neutral rule.
---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 02c54a7..730bb3b 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1555,7 +1555,7 @@ btensor btensor::bmm(const btensor &mat) const
 
 btensor btensor::sum() const
 {
-	auto out = btensor({}, selection_rule.value, this->options());
+	auto out = btensor({}, selection_rule->neutral(), this->options());
 	auto list = new_block_list_apply_to_all_blocks([](const torch::Tensor &t) { return t.sum(); });
 	torch::Tensor out_val = torch::zeros({}, options());
 	for (auto &a : list)
-- 
2.43.0


From db848988ec96aa7da1548be64c7d54741fbc36e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:43 +0000
Subject: [PATCH 39/60] fix: reshaping a block tensor of rank 0 read and wrote
 out of bounds

---
 sources/btensor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 730bb3b..50fc5a4 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3045,7 +3045,8 @@ btensor btensor::reshape(torch::IntArrayRef index_groups) const
 	// constructor to initialize this, and modification to the view subclasses to make use of this. Would upgrade
 	// them from bidirectionnal to random access.
 	auto addresses = btensor::index_list(sections_by_dim.size(), 0);
-	std::partial_sum(sections_by_dim.begin(), sections_by_dim.end() - 1, addresses.begin() + 1);
+	if (rank > 0)
+		std::partial_sum(sections_by_dim.begin(), sections_by_dim.end() - 1, addresses.begin() + 1);
 
 	auto out_sections_by_dim = reshape_sections_by_dim(m_index_group, out_rank, sections_by_dim);
 	auto out_size = std::reduce(out_sections_by_dim.begin(), out_sections_by_dim.end());
-- 
2.43.0


From fc5a91c9266c18a96ddfbfeab89a1cda4d150eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:04 +0000
Subject: [PATCH 40/60] fix: truncation without a minimum, or of no values at
 all, failed when every value could be rejected

---
 sources/LinearAlgebra.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index 6bafc72..4b30f25 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -63,13 +63,15 @@ int64_t compute_last_index(torch::Tensor d,torch::Scalar tol,torch::Scalar pow,s
 	auto Last_dim_size = d.sizes()[d.sizes().size()-1];
 	auto toln = torch::pow(torch::ones({})*tol,pow);
 	int64_t last_index = Last_dim_size-1;
+	if (last_index < 0) return last_index; // there is nothing to keep
 	auto trunc_val = d.index({Ellipsis,last_index}).abs().pow(pow);// will have to test to make sure we're not doing the abs and pow in place in d
-	while (last_index >= min_size)
+	while (last_index >= 0 and static_cast<size_t>(last_index) >= min_size)
 	{
-		if (  (  trunc_val > toln).any().item().to<bool>() and last_index < max_size)
+		if (  (  trunc_val > toln).any().item().to<bool>() and static_cast<size_t>(last_index) < max_size)
 			break;
 		--last_index;
-		trunc_val += d.index({Ellipsis,last_index}).abs().pow(pow);//Again, abs and pow must not be in place...
+		if (last_index >= 0) // a minimum of zero allows for the rejection of every values
+			trunc_val += d.index({Ellipsis,last_index}).abs().pow(pow);//Again, abs and pow must not be in place...
 	}
 	return last_index;
 }
-- 
2.43.0


From 31b0e1033b8f6df00f641433c1460d81ecd4ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 41/60] fix: truncation of an ascending list of values was
 wrong without a maximum, and kept less than the minimum

---
 sources/LinearAlgebra.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index 4b30f25..2ecaf8f 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -29,17 +29,17 @@ int64_t compute_first_index_ascending(torch::Tensor d, torch::Scalar tol, torch:
 	// efforts.
 	using namespace torch::indexing;
 	auto Last_dim_size = d.sizes()[d.sizes().size() - 1];
-	// auto last_index = Last_dim_size-1;
+	auto toln = torch::pow(torch::ones({}) * tol, pow);
 	int64_t first_index = 0;
-	auto trunc_val = d.index({Ellipsis, static_cast<int64_t>(first_index)}).abs().pow_(pow);
-	auto min_index = Last_dim_size - min_size;
-	auto max_index = Last_dim_size - max_size;
-	while (first_index <= min_index)
+	auto trunc_val = torch::zeros_like(toln);
+	while (first_index < Last_dim_size)
 	{
-		if (  (trunc_val > tol).any().item().to<bool>() and first_index >= max_index)
+		// number of values kept so far, and weight rejected if this one is rejected as well.
+		auto kept = static_cast<size_t>(Last_dim_size - first_index);
+		trunc_val = trunc_val + d.index({Ellipsis, first_index}).abs().pow(pow);
+		if (kept <= min_size or ((trunc_val > toln).any().item().to<bool>() and kept <= max_size))
 			break;
 		++first_index;
-		trunc_val += d.index({Ellipsis, static_cast<int64_t>(first_index)}).abs().pow_(pow);
 	}
 	return first_index;
 }
-- 
2.43.0


From 914291ad1aaf64eb315862ceffabbb9255da19f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:36 +0000
Subject: [PATCH 42/60] fix: truncating pairs of dense tensors used the wrong
 tensor as values; overloads on tuples were never defined

---
 include/LinearAlgebra.h   | 4 ++--
 sources/LinearAlgebra.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/LinearAlgebra.h b/include/LinearAlgebra.h
index 0cb4cee..c28768a 100644
--- a/include/LinearAlgebra.h
+++ b/include/LinearAlgebra.h
@@ -68,7 +68,7 @@ int64_t compute_last_index(torch::Tensor d,torch::Scalar tol,torch::Scalar pow,s
  * Output is in the same order as input
  */
 std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor d, torch::Tensor v, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
-std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor>& tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
+std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
 
 /**
  * truncate the input tensors according to the small values of e.
@@ -92,7 +92,7 @@ std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor e
  * @param pow power in the computation of the truncation error
  * @return std::tuple<torch::Tensor,torch::Tensor> 
  */
-std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor>& tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=1);
+std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor> tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=1);
 
 /**
  * perform the singular value decomposition of the rank N tensor A. 
diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index 2ecaf8f..53e1734 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -88,8 +88,8 @@ std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(torch::Tensor u,t
 
 std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor> tensors, torch::Scalar tol,size_t min_size, size_t max_size, torch::Scalar pow)
 {	
-	auto& [d,u] = tensors;
-	return truncate(u,d,tol,min_size,max_size,pow);
+	auto& [u,e] = tensors;
+	return truncate(u,e,tol,min_size,max_size,pow);
 }
 std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> tensors, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {	
@@ -97,7 +97,7 @@ std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch:
 	return truncate(u,d,v,tol,min_size,max_size,pow);
 }
 
-std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor e,torch::Tensor u, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
+std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor e, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {
 	using namespace torch::indexing;
 	auto last_index = compute_last_index(e,tol,pow,min_size,max_size);
-- 
2.43.0


From 8b5476c9d793e35a133e7e102336441e65c0d8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:49 +0000
Subject: [PATCH 43/60] fix: truncated eigenvalue decomposition of dense
 tensors truncated the eigenvectors' elements instead of the eigenvalues

---
 sources/LinearAlgebra.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index 53e1734..4e15bbf 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -158,7 +158,10 @@ std::tuple<torch::Tensor,torch::Tensor> eigh(torch::Tensor A, size_t split,torch
 
 std::tuple<torch::Tensor,torch::Tensor> eigh(torch::Tensor A, size_t split,torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {
-	return truncate(quantit::eigh(A,split),tol,min_size,max_size,pow);
+	auto [d,u] = quantit::eigh(A,split);
+	auto order = d.abs().argsort(-1,true); // eigh gives the eigenvalues in ascending order, truncation is about their magnitude
+	std::tie(u,d) = truncate(u.index_select(-1,order),d.index_select(-1,order),tol,min_size,max_size,pow);
+	return std::make_tuple(d,u);
 }
 
 std::tuple<torch::Tensor,torch::Tensor> eig(torch::Tensor A, size_t split)
-- 
2.43.0


From b8b5f176653feab0e7d7d58c4d19792bfff195e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:13 +0000
Subject: [PATCH 44/60] fix: removing a section in the truncation of a block
 decomposition left blocks of the section in the factors

---
 sources/btensor_linalg.cpp | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 1dd5886..a507c16 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -688,23 +688,12 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 	to_remove.reserve(std::distance(d.begin(), d.end()));
 	auto remove_unit_blocks = [](btensor &unitary, const auto &d_ind)
 	{
-		auto U_src = unitary.begin();
-		auto U_dest = unitary.begin();
-		while (U_dest != unitary.end())
+		auto U_it = unitary.blocks_list.begin();
+		while (U_it != unitary.blocks_list.end())
 		{
-			auto &src_ind = std::get<0>(*U_src);
-			auto &dest_ind = std::get<0>(*U_dest);
-			U_dest += (dest_ind.back() == d_ind.back());
-			if (U_dest != U_src and U_dest != unitary.end())
-			{
-				swap(*U_dest, *U_src);
-			}
-			U_dest += U_dest != unitary.end(); // stop incrementing if we reached the end
-			++U_src;
+			auto &U_ind = std::get<0>(*U_it);
+			U_it = U_ind.back() == d_ind.back() ? unitary.blocks_list.erase(U_it) : std::next(U_it);
 		}
-		unitary.blocks_list.resize(
-		    unitary.blocks_list.size() -
-		    std::distance(U_src, U_dest)); // the unwanted blocks are pushed to the end, resizing down destroy them.
 	};
 	auto trunc_unit_block = [&d](btensor &U, const auto &d_ind, const auto last_index)
 	{
-- 
2.43.0


From 096ae6f006d211f26e7b1f8d5a59f48917043d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:57 +0000
Subject: [PATCH 45/60] fix: truncation of a block decomposition without a
 minimum, without values, or with null values below the minimum kept the wrong
 number

---
 sources/btensor_linalg.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index a507c16..236b464 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -677,9 +677,17 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 	vd = std::get<0>(
 	    vd.sort(-1, true)); // sort the last (only) dimension in descending order //no inplace sort in torch...
 	// vd is now sorted in ascending order.
-	auto smallest_value = vd.index({torch::indexing::Ellipsis, compute_last_index(vd, tol, pow, min, max)});
-	smallest_value -=
-	    2 * smallest_value * epsilon(d.options().dtype()); // Better chance to preserve degenerate multiplets that way.
+	const int64_t n_kept = compute_last_index(vd, tol, pow, min, max) + 1;
+	// only the values above the threshold get selected below, null values are kept when the minimum requires it.
+	int64_t n_null = n_kept - lower_bound(vd, torch::Scalar(0.));
+	// without any value to keep, the threshold is above all of them.
+	auto smallest_value = torch::full({}, std::numeric_limits<double>::max(), vd.options());
+	if (n_kept > 0)
+	{
+		smallest_value = vd.index({torch::indexing::Ellipsis, n_kept - 1});
+		smallest_value -= 2 * smallest_value *
+		                  epsilon(d.options().dtype()); // Better chance to preserve degenerate multiplets that way.
+	}
 	// fmt::print("epsilon {}\n",epsilon(smallest_value).toDouble());
 	// for each block trio, we can remove all the values smaller than the one in smallest_value
 	// without inducing an error larger than the tol.
@@ -718,6 +726,8 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 		// fmt::print("last_index! {}\n\n", db > smallest_value);
 		// fmt::print("last_index other order because of implicit casts!! {}\n\n",  smallest_value < db);
 		auto last_index = lower_bound(db, smallest_value.item());
+		for (; n_null > 0 and last_index < db.sizes()[0]; --n_null)
+			++last_index;
 		if (last_index == 0)
 		{ // remove the whole block...
 			// i think, out of laziness and lack of advantages to the converse, i will only erase the blocks without
-- 
2.43.0


From 32e47902c1b62fbc3c4b3a823868dcd9620002c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:38 +0000
Subject: [PATCH 46/60] fix: eigenvalue decomposition of a block tensor with a
 split called itself forever

---
 sources/btensor_linalg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 236b464..2e2e491 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -371,7 +371,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, size_t split)
 	// reshape according to split
 	auto rtensor = tensor.reshape({static_cast<int64_t>(split)});
 	// call batched SVD
-	auto [d, rU] = eigh(rtensor, true); // we want the eigenvectors.
+	auto [d, rU] = eigh(rtensor, BOOL(true)); // a plain bool would call this very function again.
 	// undo reshape
 	std::vector<int64_t> U_shape(tensor.dim(), -1);
 	{
-- 
2.43.0


From c5e2c87c816628a4b6342a8ce264e08f09e80dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:38 +0000
Subject: [PATCH 47/60] fix: eigenvectors of a block tensor had the wrong
 selection rule unless its first label was neutral

---
 sources/btensor_linalg.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 2e2e491..16c00a8 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -325,9 +325,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-	btensor U = shape_from(tensor.shape_from(to_U_shape)
-	                           .shift_selection_rule_(tensor.section_conserved_qtt(tensor.dim() - 1, 0).inverse()),
-	                       rightD_shape);
+	btensor U = shape_from(tensor.shape_from(to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
 	// fmt::print("right_D_shape: \n {}\nU: \n{}",rightD_shape,U);
 	// fmt::print("V: \n {}\n",V);
 	int b_i = 0;
-- 
2.43.0


From 6f0ecece03c4d1061c92093443678bae24297b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:38 +0000
Subject: [PATCH 48/60] fix: truncated eigenvalue decomposition of block
 tensors lost the eigenvectors and dropped negative eigenvalues

---
 sources/btensor_linalg.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 16c00a8..747d84a 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -668,7 +668,7 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 	{
 		auto &tens = std::get<1>(block);
 		auto l = tens.sizes()[0];
-		vd.index_put_({torch::indexing::Slice(n, n + l)}, tens); // bug here.
+		vd.index_put_({torch::indexing::Slice(n, n + l)}, tens.abs()); // bug here.
 		n += l;
 	}
 	// quantit::print(vd);
@@ -723,7 +723,8 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 		using namespace torch::indexing;
 		// fmt::print("last_index! {}\n\n", db > smallest_value);
 		// fmt::print("last_index other order because of implicit casts!! {}\n\n",  smallest_value < db);
-		auto last_index = lower_bound(db, smallest_value.item());
+		auto magnitude = db.abs();
+		auto last_index = lower_bound(magnitude, smallest_value.item());
 		for (; n_null > 0 and last_index < db.sizes()[0]; --n_null)
 			++last_index;
 		if (last_index == 0)
@@ -783,8 +784,17 @@ std::tuple<btensor, btensor, btensor> truncate(std::tuple<btensor, btensor, bten
 std::tuple<btensor, btensor> truncate(std::tuple<btensor, btensor> &&e_S, size_t max, size_t min, btensor::Scalar tol,
                                       btensor::Scalar pow)
 {
-	auto [d, unit] =
-	    truncate_impl(std::move(std::get<0>(e_S)), std::make_tuple(std::move(std::get<0>(e_S))), max, min, tol, pow);
+	auto &[e, S] = e_S;
+	// the eigenvalues of a block come in ascending order, put those with the largest magnitude first
+	for (auto &[e_ind, e_block] : e)
+	{
+		auto order = e_block.abs().argsort(-1, true);
+		e_block = e_block.index_select(-1, order);
+		for (auto &[S_ind, S_block] : S)
+			if (S_ind.back() == e_ind.back())
+				S_block = S_block.index_select(-1, order);
+	}
+	auto [d, unit] = truncate_impl(std::move(e), std::make_tuple(std::move(S)), max, min, tol, pow);
 	return std::make_tuple(std::move(d), std::move(std::get<0>(unit)));
 }
 std::tuple<btensor, btensor, btensor> truncate(btensor &&U, btensor &&e, btensor &&S, size_t max, size_t min,
-- 
2.43.0


From 5df47e1f36152683199ccbb023fa84bbc016f6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:50 +0000
Subject: [PATCH 49/60] fix: the shape of a subset of a dense tensor's
 dimensions was written past its end

---
 sources/btensor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 50fc5a4..381a1f3 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2354,14 +2354,14 @@ torch_shape shape_from(const torch_shape &shape, const std::vector<int64_t> inds
 	std::vector<int64_t> sizes(rank);
 	auto it = sizes.begin();
 	auto shape_it = shape._sizes.begin();
-	if (rank)
+	for (auto &ind : inds)
 	{
-		for (auto &ind : inds)
+		if (ind == -1)
 		{
 			*it = *shape_it;
-			it += ind == -1;
-			++shape_it;
+			++it;
 		}
+		++shape_it;
 	}
 	return {sizes, shape.opt};
 }
-- 
2.43.0


From f1b0e1f2f285306d1381897abe5c01ef600d81df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:05 +0000
Subject: [PATCH 50/60] fix: the default edges of block network contractions
 depended on the states' content and on the compiler's evaluation order

---
 sources/MPT.cpp  | 23 +++++++++++++++--------
 sources/dmrg.cpp |  4 +++-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 138057d..6506926 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -219,14 +219,23 @@ btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs, btensor left_edg
 	}
 	return tensordot(left_edge, right_edge, {0, 1, 2}, {0, 1, 2});
 }
+namespace
+{
+/**
+ * @brief identity between an outer bond of a and the one of b. Its selection rule depends only on the labels of those
+ * bonds: the content of the rest of the first and last tensors differ from one state to another.
+ */
+btensor overlap_edge(const btensor &a, const btensor &b, int64_t dim)
+{
+	return eye_like(shape_from(details::edge_shape_prep(a, dim), details::edge_shape_prep(b, dim).inverse_cvals_()));
+}
+} // namespace
 btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs)
 {
 	// todo:: adapt to work with Btensors.
 	// need a btensor implementation of ones. must be a one_like thing.
-	auto left_edge =
-	    eye_like(shape_from(shape_from(a.front(), {-1, 0, 0}).inverse_cvals_(), shape_from(b.front(), {-1, 0, 0})));
-	auto right_edge =
-	    eye_like(shape_from(shape_from(a.back(), {0, 0, -1}).inverse_cvals_(), shape_from(b.back(), {0, 0, -1})));
+	auto left_edge = overlap_edge(a.front(), b.front(), 0);
+	auto right_edge = overlap_edge(a.back(), b.back(), 2);
 	left_edge = tensordot(left_edge, ones_like(details::edge_shape_prep(obs.front(), 0)), {}, {}).permute({0, 2, 1});
 	right_edge = tensordot(right_edge, ones_like(details::edge_shape_prep(obs.back(), 2)), {}, {}).permute({0, 2, 1});
 	return contract(a, b, obs, std::move(left_edge), right_edge);
@@ -284,10 +293,8 @@ btensor contract(const bMPS &a, const bMPS &b, btensor left_edge, const btensor
 }
 btensor contract(const bMPS &a, const bMPS &b)
 {
-	auto left_edge =
-	    eye_like(shape_from(a.front().shape_from({-1, 0, 0}).inverse_cvals_(), b.front().shape_from({-1, 0, 0})));
-	auto right_edge =
-	    eye_like(shape_from(a.back().shape_from({0, 0, -1}).inverse_cvals_(), b.back().shape_from({0, 0, -1})));
+	auto left_edge = overlap_edge(a.front(), b.front(), 0);
+	auto right_edge = overlap_edge(a.back(), b.back(), 2);
 	return contract(a, b, left_edge, right_edge);
 }
 
diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index df7bbb3..31586bd 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -339,7 +339,9 @@ auto edge_shape_prep_impl(const shape_t &tens, int64_t dim)
 	tens_vec[dim] = -1;
 	auto Shape = shape_from(tens, tens_vec);
 	Shape.neutral_selection_rule_();
-	return shape_from(Shape.inverse_cvals_(), shape_from(Shape, {0}));
+	// must be done before the conserved quantities are inverted: the order of evaluation of arguments is unspecified.
+	auto first_section = shape_from(Shape, {0});
+	return shape_from(Shape.inverse_cvals_(), first_section);
 }
 btensor details::edge_shape_prep(const btensor &tens, int64_t dim) { return edge_shape_prep_impl(tens, dim); }
 torch_shape details::edge_shape_prep(const torch_shape &tens, int64_t dim) { return edge_shape_prep_impl(tens, dim); }
-- 
2.43.0


From 1ae1e986d9f8b21103b57c2bf33f6c64997ddc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:52 +0000
Subject: [PATCH 51/60] fix: checks of tensor network chains read out of
 bounds, aborted on mixed quantities; centre could be out of range

---
 include/MPT.h       |  2 +-
 sources/MPT.cpp     | 31 ++++++++++---------------------
 sources/btensor.cpp |  5 +++++
 3 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/include/MPT.h b/include/MPT.h
index aeb0016..f8fd00d 100644
--- a/include/MPT.h
+++ b/include/MPT.h
@@ -315,7 +315,7 @@ class MPS final
 	static bool check_one(const Tens &tens);
 	MPS() : vector_lift<MPS>(), orthogonality_center(0) {}
 	MPS(size_type size) : vector_lift<MPS>(size), orthogonality_center(0) {}
-	MPS(size_type size, size_t oc) : vector_lift<MPS>(size), orthogonality_center(oc) {}
+	MPS(size_type size, size_t oc) : vector_lift<MPS>(size), orthogonality_center(std::min(oc, size - 1)) {}
 	MPS(const MPS &other) : vector_lift(other), orthogonality_center(other.orthogonality_center) {}
 	MPS(MPS &&other) noexcept : vector_lift(std::move(other)), orthogonality_center(other.orthogonality_center) {}
 	MPS(std::vector<Tens> initl, size_t oc = 0) : vector_lift<MPS>(std::move(initl)), orthogonality_center(oc)
diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 6506926..4a60eb9 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -119,16 +119,9 @@ bool MPS::check_one(const Tens &tens)
 
 bool MPS::check_ranks() const
 {
-	auto prev_bond = operator[](0).sizes()[0];
-	bool all_rank_3 = std::all_of(begin(), end(),
-	                              [&prev_bond](const Tens &el)
-	                              {
-		                              using std::swap;
-		                              auto bond = el.sizes()[2];
-		                              swap(bond, prev_bond);
-		                              return el.sizes().size() == 3 and bond == el.sizes()[0];
-	                              });
-	return all_rank_3;
+	bool all_rank_3 = std::all_of(begin(), end(), [](const Tens &el) { return el.dim() == 3; });
+	return all_rank_3 and std::adjacent_find(begin(), end(), [](const Tens &left, const Tens &right)
+	                                         { return left.sizes()[2] != right.sizes()[0]; }) == end();
 }
 
 bool MPO::check_one(const Tens &tens)
@@ -169,20 +162,14 @@ bMPO &bMPO::coalesce(btensor::Scalar cutoff)
 
 bool MPO::check_ranks() const
 {
-	auto prev_bond = operator[](0).sizes()[0];
-	bool all_rank_4 = std::all_of(begin(), end(),
-	                              [&prev_bond](const Tens &el)
-	                              {
-		                              using std::swap;
-		                              auto bond = el.sizes()[2];
-		                              swap(bond, prev_bond);
-		                              return el.sizes().size() == 4 and bond == el.sizes()[0];
-	                              });
-	// assert(all_rank_4);// a MPS must have only rank 3 tensors
-	return all_rank_4;
+	bool all_rank_4 = std::all_of(begin(), end(), [](const Tens &el) { return el.dim() == 4; });
+	return all_rank_4 and std::adjacent_find(begin(), end(), [](const Tens &left, const Tens &right)
+	                                         { return left.sizes()[2] != right.sizes()[0]; }) == end();
 }
 bool bMPO::check_ranks() const
 {
+	if (empty())
+		return true;
 	auto it = begin();
 	auto next = begin() + 1;
 	bool all_rank_4 = it->dim() == 4;
@@ -196,6 +183,8 @@ bool bMPO::check_ranks() const
 }
 bool bMPS::check_ranks() const
 {
+	if (empty())
+		return true;
 	auto next = begin() + 1;
 	auto it = begin();
 	bool all_rank_3 = it->dim() == 3;
diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 381a1f3..a47493a 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -817,6 +817,11 @@ bool btensor::check_product_compat(const btensor &in1, const btensor &in2, torch
                                    torch::IntArrayRef dims2) noexcept(!Throws)
 {
 	bool ok_CR = dims1.size() == dims2.size();
+	if constexpr (not Throws)
+	{
+		// conserved quantities of different types can't be combined, let alone cancel each other.
+		ok_CR = ok_CR and in1.selection_rule->get().same_type(in2.selection_rule->get());
+	}
 	// fmt::print("{}\n\n {}\n\n",in1,in2);
 	for (size_t i = 0; i < dims1.size() and ok_CR; ++i)
 	{
-- 
2.43.0


From 51ba52ff69a36053b3c28ab402ab7644e5982dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:52 +0000
Subject: [PATCH 52/60] fix: the centre of a block state built from a range was
 uninitialised

---
 include/MPT.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/MPT.h b/include/MPT.h
index f8fd00d..cd5effc 100644
--- a/include/MPT.h
+++ b/include/MPT.h
@@ -579,7 +579,7 @@ class bMPS final : public vector_lift<bMPS, btensor> // specialization for rank
 		if (oc >= size() and oc != 0)
 			throw std::invalid_argument("orthogonality center position greater than the number of defined tensors.");
 	}
-	bMPS(const_iterator begin, const_iterator end) : vector_lift(begin, end) {}
+	bMPS(const_iterator begin, const_iterator end) : vector_lift(begin, end), orthogonality_center(0) {}
 
 	virtual ~bMPS() = default;
 
-- 
2.43.0


From 18321ff9101b6c1c3a3e4aa60be2b65ae6446234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:47 +0000
Subject: [PATCH 53/60] fix: the local update of an eigenstate replaced it by
 noise and returned a wrong energy

---
 sources/dmrg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 31586bd..a88697a 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -627,6 +627,10 @@ std::tuple<Tensor, Tensor> two_sites_update_impl(const Tensor &state, const Tens
                                                  const Tensor &Renv)
 {
 	auto [psi_ip, a0, a1, b] = one_step_lanczos(state, hamil, Lenv, Renv);
+	// the state is already an eigenstate: there is no second vector to mix it with, psi_ip isn't normalized.
+	btensor::Scalar eigenstate = b.abs().less(1e-15).item();
+	if (eigenstate.to<bool>())
+		return std::make_tuple(a0, state);
 	// print("STATE UPDATE\nnorm psi_ip {}\n",
 	//    tensordot(psi_ip, psi_ip.conj(), {0, 1, 2, 3}, {0, 1, 2, 3}).item().toDouble());
 	// fmt::print("Psi_ip {}\n\na0 {}\n\n a1 {}\n\nb
-- 
2.43.0


From 97a1b003d769b09bca832ac43998f6e45b06510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:47 +0000
Subject: [PATCH 54/60] fix: the search for the ground state finished with the
 orthogonality center next to where it says it is

---
 sources/dmrg.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index a88697a..70198c8 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -150,13 +150,14 @@ struct dmrg_2sites_update
 	using env_t = typename dependant_tensor_network<MPO_t>::env_type;
 	using tensor_t = typename dependant_tensor_network<MPO_t>::base_tensor_type;
 	const MPT_t &twosite_hamil;
-	size_t &oc;
+	size_t &oc;     // left site of the next pair of sites to update
+	size_t &center; // where the last update left the orthogonality center
 	env_t &Env;
 	const dmrg_options &options;
 
-	dmrg_2sites_update(const MPO_t &_hamil, const MPT_t &_twosites_hamil, size_t &_oc, env_t &_Env,
+	dmrg_2sites_update(const MPO_t &_hamil, const MPT_t &_twosites_hamil, size_t &_oc, size_t &_center, env_t &_Env,
 	                   const dmrg_options &_options)
-	    : hamil(_hamil), twosite_hamil(_twosites_hamil), oc(_oc), Env(_Env), options(_options)
+	    : hamil(_hamil), twosite_hamil(_twosites_hamil), oc(_oc), center(_center), Env(_Env), options(_options)
 	{
 	}
 	// using print = dummy_print.operator();
@@ -201,6 +202,7 @@ struct dmrg_2sites_update
 		}
 		// fmt::print("full norm: \n{}\n",contract(sta6te,state));
 		// fmt::print("full E: \n{}\n",contract(state,state,hamil));
+		center = oc + forward;
 		oc += step;
 		return E0;
 	}
@@ -223,6 +225,7 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 	                           hamiltonian[0].options().merge_in(torch::kDouble));
 	auto sweep_dir = 1;
 	size_t init_pos = in_out_state.orthogonality_center;
+	size_t center = init_pos;
 	auto N_step = two_sites_hamil.size() - 1 + (two_sites_hamil.size() == 1);
 	int step = (in_out_state.orthogonality_center == 0) ? 1 : -1;
 	if (two_sites_hamil.size() == 1)
@@ -234,7 +237,7 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 		--init_pos;
 		--oc;
 	}
-	dmrg_2sites_update update(hamiltonian, two_sites_hamil, oc, Env, options);
+	dmrg_2sites_update update(hamiltonian, two_sites_hamil, oc, center, Env, options);
 	auto iteration = 0u;
 	logger.init(options);
 	for (iteration = 0u; iteration < options.maximum_iterations; ++iteration)
@@ -262,6 +265,7 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 			throw std::runtime_error(fmt::format(
 			    "the orthogonality center finished somewhere surprising! final oc: {}. original oc: {}", oc, init_pos));
 	}
+	oc = center; // the leftward sweep finishes with the orthogonality center on the right of the oc.
 	if (oc != init_pos)
 		in_out_state.move_oc(init_pos);
 
@@ -284,6 +288,7 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 	torch::Tensor E0 = torch::full({}, 100000.0, in_out_state[0].options().merge_in(torch::kDouble));
 	auto sweep_dir = 1;
 	size_t init_pos = in_out_state.orthogonality_center;
+	size_t center = init_pos;
 	auto N_step = twosites_hamil.size() - 1 + (twosites_hamil.size() == 1);
 	torch::Tensor E0_update;
 	int step = (in_out_state.orthogonality_center == 0) ? 1 : -1;
@@ -296,7 +301,7 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 		--init_pos;
 		--oc;
 	}
-	dmrg_2sites_update update(hamiltonian, twosites_hamil, oc, Env, options);
+	dmrg_2sites_update update(hamiltonian, twosites_hamil, oc, center, Env, options);
 	auto iteration = 0u;
 	logger.init(options);
 	for (iteration = 0u; iteration < options.maximum_iterations; ++iteration)
@@ -321,10 +326,9 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 			throw std::runtime_error(fmt::format(
 			    "the orthogonality center finished somewhere surprising! final oc: {}. original oc: {}", oc, init_pos));
 	}
-	oc += (oc == 0); // The oc never really finishes at 0 with the current algo.
-	// The leftward sweep finishes with the oc at 1, but set the oc at 0,
-	// such the site 0 and 1 are updated together once by the next rightward sweep.
-	// this trickery is necessary to get this optimization without writing special code in the sweeper.
+	// The leftward sweep finishes with the orthogonality center on the right of the oc.
+	// this trickery is necessary to update each pair of site once without writing special code in the sweeper.
+	oc = center;
 	if (oc != init_pos) // then we actually move it back to its origin location.
 		in_out_state.move_oc(init_pos);
 
-- 
2.43.0


From 951808d47739f5946f5667128dbcff4b26270ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:47 +0000
Subject: [PATCH 55/60] fix: the search for the ground state of a single site
 wrote out of bounds

---
 sources/dmrg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 70198c8..18dd425 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -221,6 +221,8 @@ struct dmrg_2sites_update
 btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil, bMPS &in_out_state,
                            const dmrg_options &options, benv_holder &Env, dmrg_logger &logger)
 {
+	if (in_out_state.size() < 2)
+		throw std::invalid_argument("the two sites algorithm needs a chain of at least two sites.");
 	btensor E0 = quantit::full({}, hamiltonian[0].selection_rule->neutral(), 100000.0,
 	                           hamiltonian[0].options().merge_in(torch::kDouble));
 	auto sweep_dir = 1;
@@ -281,6 +283,8 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_hamil, MPS &in_out_state,
                                  const dmrg_options &options, env_holder &Env, dmrg_logger &logger)
 {
+	if (in_out_state.size() < 2)
+		throw std::invalid_argument("the two sites algorithm needs a chain of at least two sites.");
 	// TODO check for non-zero input.
 	auto norm = contract(in_out_state, in_out_state).item().toDouble();
 	if (norm == 0 or norm < 1e-15)
-- 
2.43.0


From 13ad5f9d806d45adbd57685fe9575b87d40301d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:27 +0000
Subject: [PATCH 56/60] fix: the local update of a block eigenstate of zero
 energy returned a zero state

---
 sources/dmrg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 18dd425..99cfef7 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -636,8 +636,8 @@ std::tuple<Tensor, Tensor> two_sites_update_impl(const Tensor &state, const Tens
 {
 	auto [psi_ip, a0, a1, b] = one_step_lanczos(state, hamil, Lenv, Renv);
 	// the state is already an eigenstate: there is no second vector to mix it with, psi_ip isn't normalized.
-	btensor::Scalar eigenstate = b.abs().less(1e-15).item();
-	if (eigenstate.to<bool>())
+	btensor::Scalar non_singular = ge(b.abs(), 1e-15).item();
+	if (not non_singular.to<bool>())
 		return std::make_tuple(a0, state);
 	// print("STATE UPDATE\nnorm psi_ip {}\n",
 	//    tensordot(psi_ip, psi_ip.conj(), {0, 1, 2, 3}, {0, 1, 2, 3}).item().toDouble());
-- 
2.43.0


From fe582daf1b3d54331d9744112f23e3e8225f8372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:00 +0000
Subject: [PATCH 57/60] fix: shapes and reshapes of tensors with a dimension of
 no section, the decomposition of a tensor without block is refused or reads
 out of bounds

---
 sources/btensor.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index a47493a..215bb44 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -558,9 +558,8 @@ btensor btensor::shape_from(const std::vector<int64_t> &dims) const
 			// fail silently if the index is too large. require a check earlier on.
 		}
 		block_ind -= std::distance(sec_sizes_beg, sec_sizes_end);
-		out_sel_rule.op(
-		    section_conserved_qtt(i, block_ind).inverse(),
-		    not is_slice); // when el_index is negative, block_ind should be 0 and !is_slice false, which is always ok.
+		if (not is_slice) // a dimension kept whole might have no section at all.
+			out_sel_rule *= section_conserved_qtt(i, block_ind).inverse();
 		++i;
 	}
 	out_sections_by_dim.resize(out_rank);
@@ -2991,10 +2990,18 @@ bool compatible_sections_by_dim(const btensor::index_list &lhs_sections_by_dim,
 	auto rhs = std::reduce(rhs_sections_by_dim.begin(), rhs_sections_by_dim.end(), 1, std::multiplies());
 	return lhs == rhs;
 }
+// a dimension without any section leaves no block to compare.
+bool no_possible_block(const btensor &tensor)
+{
+	const auto &sections = tensor.section_numbers();
+	return std::find(sections.begin(), sections.end(), 0) != sections.end();
+}
 // each of those possible block have the same associated flux. (product of all the conserved quantity associated
 // with the block)
 bool compatible_c_vals(const btensor &lhs, const btensor &rhs)
 {
+	if (no_possible_block(lhs))
+		return true;
 	bool out = true;
 	auto lhs_index = btensor::index_list(lhs.dim(), 0);
 	auto rhs_index = btensor::index_list(rhs.dim(), 0);
@@ -3017,6 +3024,8 @@ bool compatible_c_vals(const btensor &lhs, const btensor &rhs)
 // each of the possible block have the same total number of elements.
 bool compatible_block_size(const btensor &lhs, const btensor &rhs)
 {
+	if (no_possible_block(lhs))
+		return true;
 	bool out = true;
 	auto lhs_index = btensor::index_list(lhs.dim(), 0);
 	auto rhs_index = btensor::index_list(rhs.dim(), 0);
-- 
2.43.0


From 5126d911bcb56db7b16cc7dbaf059494ed3ce735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:00 +0000
Subject: [PATCH 58/60] fix: the block eigenvalue decomposition lays out rows
 and columns of a sector in the same order

---
 sources/btensor_linalg.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 747d84a..99e6c42 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -131,6 +131,15 @@ compact_dense_single(btensor::block_list_t::content_t::const_iterator start,
 			row_acc = slice_end;
 		}
 	}
+	// the sections of the columns were not necessarily encountered in order: lay them out in order, like the rows. The
+	// eigenvalue problem needs the same order on both sides.
+	col_acc = 0;
+	for (auto &[col, slice] : encountered_block_col)
+	{
+		auto slice_end = col_acc + (slice.stop() - slice.start());
+		slice = torch::indexing::Slice(col_acc, slice_end);
+		col_acc = slice_end;
+	}
 	auto out_tensor = torch::zeros(tensor_size);
 	for (auto it = start; it != end;
 	     ++it) // stuff the blocks in the dense tensor. can be parallelized, but false sharing can occur.
-- 
2.43.0


From 2dac37697c01e0bf4170d47c25182da079bf3fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:00 +0000
Subject: [PATCH 59/60] fix: block decompositions keep the type of the elements
 instead of the default one

---
 sources/btensor_linalg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 99e6c42..fc1ba5c 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -140,7 +140,7 @@ compact_dense_single(btensor::block_list_t::content_t::const_iterator start,
 		slice = torch::indexing::Slice(col_acc, slice_end);
 		col_acc = slice_end;
 	}
-	auto out_tensor = torch::zeros(tensor_size);
+	auto out_tensor = torch::zeros(tensor_size, start->second.options());
 	for (auto it = start; it != end;
 	     ++it) // stuff the blocks in the dense tensor. can be parallelized, but false sharing can occur.
 	{
-- 
2.43.0


From f7e49bdd1de5933a422c501189fe6e1bbf443b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:49 +0000
Subject: [PATCH 60/60] fix: decompositions of tensors with a dimension of no
 element, as left by an earlier decomposition of a tensor without block

---
 sources/btensor.cpp        |  2 ++
 sources/btensor_linalg.cpp | 42 ++++++++++++++++++++++++++++++--------
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 215bb44..4a3c369 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2853,6 +2853,8 @@ T reshape_block_prop(torch::IntArrayRef index_groups, const T &block_values, con
 		auto j = btensor::index_list(rank, 0);
 		// fmt::print("index bundle [{}, {}[\n", *index_start, *(index_start+1));
 		auto size_j = torch::ArrayRef(in_sections_by_dims.data() + *index_start, rank);
+		if (std::find(size_j.begin(), size_j.end(), 0) != size_j.end())
+			continue; // a dimension without section: the group has none either
 		// fmt::print("sizes {}\n", size_j);
 		do
 		{
diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index fc1ba5c..0f9e07f 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -295,6 +295,30 @@ void reverse_compact_dense(torch::Tensor &tensor, btensor &out, btensor::index_l
 	}
 }
 
+/**
+ * @brief shape of the dimensions of the tensor marked by -1, with the neutral selection rule.
+ *
+ * Unlike btensor::shape_from, the dimensions left out might have no element at all: such is the bond of the
+ * decomposition of a tensor without block.
+ */
+btensor kept_dims(const btensor &tensor, const std::vector<int64_t> &dims)
+{
+	btensor::index_list sections_by_dim, sections_sizes;
+	any_quantity_vector c_vals(0, tensor.selection_rule->neutral());
+	for (size_t i = 0; i < dims.size(); ++i)
+	{
+		if (dims[i] != -1)
+			continue;
+		auto [sizes_beg, sizes_end] = tensor.section_sizes(i);
+		sections_sizes.insert(sections_sizes.end(), sizes_beg, sizes_end);
+		auto sections = tensor.section_number(i);
+		for (int64_t s = 0; s < sections; ++s)
+			c_vals.push_back(tensor.section_conserved_qtt(i, s));
+		sections_by_dim.push_back(sections);
+	}
+	return btensor(std::move(sections_by_dim), std::move(c_vals), std::move(sections_sizes),
+	               tensor.selection_rule->neutral(), tensor.options());
+}
 } // namespace LA_helpers
 using namespace LA_helpers;
 
@@ -330,11 +354,11 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
 	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
 	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
-	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_();
+	auto d = shape_from(kept_dims(tensor, d_shape), rightD_shape).neutral_shape_();
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-	btensor U = shape_from(tensor.shape_from(to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
+	btensor U = shape_from(kept_dims(tensor, to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
 	// fmt::print("right_D_shape: \n {}\nU: \n{}",rightD_shape,U);
 	// fmt::print("V: \n {}\n",V);
 	int b_i = 0;
@@ -390,7 +414,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, size_t split)
 	// fmt::print("rV \n{}\n\n",rV);
 	// fmt::print("V shape \n{}\n\n",V_shape);
 	// fmt::print("tensor \n{}\n\n",tensor);
-	auto U = rU.reshape_as(shape_from(tensor.shape_from(U_shape), rU.shape_from({0, -1})));
+	auto U = rU.reshape_as(shape_from(kept_dims(tensor, U_shape), kept_dims(rU, {0, -1})));
 	// return tuple
 	return std::make_tuple(d, U);
 }
@@ -442,11 +466,11 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	//  elementwise multiplication. This operation must multiply together the conserved value. We adopt a convention
 	//  where D always has the neutral selection rule therefor, all the conserved quantities of d must be the neutral
 	//  element.
-	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_();
+	auto d = shape_from(kept_dims(tensor, d_shape), rightD_shape).neutral_shape_();
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-	btensor U = shape_from(tensor.shape_from(to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
+	btensor U = shape_from(kept_dims(tensor, to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
 	// fmt::print("right_D_shape: \n {}\nU: \n{}",rightD_shape,U);
 	std::vector<int64_t> to_V_others(tensor.dim(), -1);
 	*(to_V_others.end() - 2) = to_V_others.back() = 0;
@@ -456,7 +480,7 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	// as well in sucha a situation Any decomposition of the conserved quantities of the input tensor on those would do,
 	// we choose the simplest, the input on U
 	//  and all neutral element on d and V.
-	btensor V = shape_from(tensor.shape_from(to_V_others).neutral_shape_(), tensor.shape_from(to_V_left), leftD_shape);
+	btensor V = shape_from(kept_dims(tensor, to_V_others).neutral_shape_(), kept_dims(tensor, to_V_left), leftD_shape);
 	V.set_selection_rule_(V.selection_rule->neutral());
 	// fmt::print("V: \n {}\n",V);
 	// preallocate the blocks, with index, so that the SVD calls can be parallelized.
@@ -530,9 +554,9 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, size_t split)
 	// fmt::print("rV \n{}\n\n",rV);
 	// fmt::print("V shape \n{}\n\n",V_shape);
 	// fmt::print("tensor \n{}\n\n",tensor);
-	auto U = rU.reshape_as(shape_from(tensor.shape_from(U_shape), rU.shape_from({0, -1})));
-	auto V_left_part = tensor.shape_from(V_shape).inverse_cvals();
-	auto V_right_part = rV.shape_from({0, -1});
+	auto U = rU.reshape_as(shape_from(kept_dims(tensor, U_shape), kept_dims(rU, {0, -1})));
+	auto V_left_part = kept_dims(tensor, V_shape).inverse_cvals();
+	auto V_right_part = kept_dims(rV, {0, -1});
 	// fmt::print("V_left_part \n{}\n\n", V_left_part);
 	// fmt::print("V_right_part \n{}\n\n", V_right_part);
 	auto V = rV.reshape_as(shape_from(V_left_part, V_right_part));
-- 
2.43.0

