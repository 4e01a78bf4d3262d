From bb70776596ae11cc43fa3d3d45968f7b715003f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 01/92] fix: variant assigned from itself or from its own
 content used the destroyed value

---
 stingraykit/variant.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/stingraykit/variant.h b/stingraykit/variant.h
index 581a6b3..3ff8b1b 100644
--- a/stingraykit/variant.h
+++ b/stingraykit/variant.h
@@ -309,21 +309,24 @@ namespace stingray
 
 		void assign(const variant& other)
 		{
+			variant tmp(other); // other may be *this or be owned by the current value
 			base::Destruct();
-			Assign(other);
+			Assign(std::move(tmp));
 		}
 
 		void assign(variant&& other)
 		{
+			variant tmp(std::move(other));
 			base::Destruct();
-			Assign(std::move(other));
+			Assign(std::move(tmp));
 		}
 
 		template < typename T >
 		void assign(T&& val, typename EnableIf<TypeListContains<TypeList, typename Decay<T>::ValueT>::Value, Dummy>::ValueT* = 0)
 		{
+			variant tmp(std::forward<T>(val)); // val may be (a part of) the current value
 			base::Destruct();
-			AssignVal(std::forward<T>(val));
+			Assign(std::move(tmp));
 		}
 
 		variant& operator = (const variant& other)
@@ -445,21 +448,24 @@ namespace stingray
 
 		void assign(const variant& other)
 		{
+			variant tmp(other); // other may be *this or be owned by the current value
 			base::Destruct();
-			Assign(other);
+			Assign(std::move(tmp));
 		}
 
 		void assign(variant&& other)
 		{
+			variant tmp(std::move(other));
 			base::Destruct();
-			Assign(std::move(other));
+			Assign(std::move(tmp));
 		}
 
 		template < typename T >
 		void assign(T&& val, typename EnableIf<TypeListContains<TypeList, typename Decay<T>::ValueT>::Value, Dummy>::ValueT* = 0)
 		{
+			variant tmp(std::forward<T>(val)); // val may be (a part of) the current value
 			base::Destruct();
-			AssignVal(std::forward<T>(val));
+			Assign(std::move(tmp));
 		}
 
 		variant& operator = (const variant& other)
-- 
2.43.0


From 5ff81beed956fc63ae9ba3d0400833151af47b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 02/92] fix: any assigned from itself lost the value, from its
 own content or a throwing copy used a destroyed one

---
 stingraykit/any.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/stingraykit/any.h b/stingraykit/any.h
index 331d40d..35e9739 100644
--- a/stingraykit/any.h
+++ b/stingraykit/any.h
@@ -287,23 +287,26 @@ namespace stingray
 
 		any& operator = (const any& other)
 		{
+			any tmp(other); // other may be *this or be owned by the current value
 			Destroy();
-			Copy(other);
+			Move(std::move(tmp));
 			return *this;
 		}
 
 		any& operator = (any&& other)
 		{
+			any tmp(std::move(other));
 			Destroy();
-			Move(std::move(other));
+			Move(std::move(tmp));
 			return *this;
 		}
 
 		template < typename T >
 		typename EnableIf<!IsSame<any, typename Decay<T>::ValueT>::Value, any>::ValueT& operator = (T&& val)
 		{
+			any tmp(std::forward<T>(val)); // val may be (a part of) the current value, and its copying may throw
 			Destroy();
-			Init<T>(std::forward<T>(val));
+			Move(std::move(tmp));
 			return *this;
 		}
 
-- 
2.43.0


From f49c3cdc9df1e5b377fdbd7604b3828586e431b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 03/92] fix: allocator-extended copy and move of flat_map and
 flat_set lost the comparator

---
 stingraykit/collection/flat_map.h | 4 ++--
 stingraykit/collection/flat_set.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/stingraykit/collection/flat_map.h b/stingraykit/collection/flat_map.h
index c6d44b6..1748db1 100644
--- a/stingraykit/collection/flat_map.h
+++ b/stingraykit/collection/flat_map.h
@@ -99,11 +99,11 @@ namespace stingray
 		{ }
 
 		flat_map(const flat_map& other, const Allocator& alloc)
-			: _container(other._container, alloc), _cmp(Compare())
+			: _container(other._container, alloc), _cmp(other._cmp)
 		{ }
 
 		flat_map(flat_map&& other, const Allocator& alloc)
-			: _container(std::move(other._container), alloc), _cmp(Compare())
+			: _container(std::move(other._container), alloc), _cmp(other._cmp)
 		{ }
 
 		flat_map(std::initializer_list<value_type> list, const Compare& comp = Compare(), const Allocator& alloc = Allocator())
diff --git a/stingraykit/collection/flat_set.h b/stingraykit/collection/flat_set.h
index fdd596d..b5f11f1 100644
--- a/stingraykit/collection/flat_set.h
+++ b/stingraykit/collection/flat_set.h
@@ -70,11 +70,11 @@ namespace stingray
 		{ }
 
 		flat_set(const flat_set& other, const Allocator& alloc)
-			: _container(other._container, alloc), _cmp(Compare())
+			: _container(other._container, alloc), _cmp(other._cmp)
 		{ }
 
 		flat_set(flat_set&& other, const Allocator& alloc)
-			: _container(std::move(other._container), alloc), _cmp(Compare())
+			: _container(std::move(other._container), alloc), _cmp(other._cmp)
 		{ }
 
 		flat_set(std::initializer_list<value_type> list, const Compare& comp = Compare(), const Allocator& alloc = Allocator())
-- 
2.43.0


From a3914456061b090bb582f6cf0b8bf600863dd245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 04/92] fix: bimap insertion of a pair with one known key
 desynchronised its sides

---
 stingraykit/collection/bimap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stingraykit/collection/bimap.h b/stingraykit/collection/bimap.h
index 3c90550..34392d6 100644
--- a/stingraykit/collection/bimap.h
+++ b/stingraykit/collection/bimap.h
@@ -45,6 +45,8 @@ public: \
 \
 	void T##_insert(const T##_key_type &key, const T##_mapped_type &value) \
 	{ \
+		if (_##T.find(key) != _##T.end() || _##O.find(value) != _##O.end()) \
+			return; \
 		_##T.insert(T##_value_type(key, value)); \
 		_##O.insert(O##_value_type(value, key)); \
 	} \
-- 
2.43.0


From 1600e0764e917184079ffe4348f144918efc6663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 05/92] fix: ordered_map and ordered_set lost data on
 self-assignment and the comparator on copying

---
 stingraykit/collection/ordered_map.h | 8 ++++----
 stingraykit/collection/ordered_set.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/stingraykit/collection/ordered_map.h b/stingraykit/collection/ordered_map.h
index 6ef90f1..7f9367d 100644
--- a/stingraykit/collection/ordered_map.h
+++ b/stingraykit/collection/ordered_map.h
@@ -180,11 +180,11 @@ namespace stingray
 		{ }
 
 		ordered_map(const ordered_map& other)
-			: ordered_map(other.begin(), other.end(), other._alloc)
+			: ordered_map(other.begin(), other.end(), other.key_comp(), other._alloc)
 		{ }
 
 		ordered_map(const ordered_map& other, const Allocator& alloc)
-			: ordered_map(other.begin(), other.end(), alloc)
+			: ordered_map(other.begin(), other.end(), other.key_comp(), alloc)
 		{ }
 
 		ordered_map(ordered_map&& other, const Allocator& alloc)
@@ -201,8 +201,8 @@ namespace stingray
 
 		ordered_map& operator = (const ordered_map& other)
 		{
-			clear();
-			insert(other.begin(), other.end());
+			ordered_map copy(other.begin(), other.end(), other.key_comp(), _alloc);
+			swap(copy);
 			return *this;
 		}
 
diff --git a/stingraykit/collection/ordered_set.h b/stingraykit/collection/ordered_set.h
index 3b21970..0bd0271 100644
--- a/stingraykit/collection/ordered_set.h
+++ b/stingraykit/collection/ordered_set.h
@@ -156,11 +156,11 @@ namespace stingray
 		{ }
 
 		ordered_set(const ordered_set& other)
-			: ordered_set(other.begin(), other.end(), other._alloc)
+			: ordered_set(other.begin(), other.end(), other.key_comp(), other._alloc)
 		{ }
 
 		ordered_set(const ordered_set& other, const Allocator& alloc)
-			: ordered_set(other.begin(), other.end(), alloc)
+			: ordered_set(other.begin(), other.end(), other.key_comp(), alloc)
 		{ }
 
 		ordered_set(ordered_set&& other, const Allocator& alloc)
@@ -177,8 +177,8 @@ namespace stingray
 
 		ordered_set& operator = (const ordered_set& other)
 		{
-			clear();
-			insert(other.begin(), other.end());
+			ordered_set copy(other.begin(), other.end(), other.key_comp(), _alloc);
+			swap(copy);
 			return *this;
 		}
 
-- 
2.43.0


From 2651a599ee5e19bc5cde95dfd6dd28285adf37f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 06/92] fix: inplace_vector lost its elements on
 self-assignment

---
 stingraykit/collection/inplace_vector.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stingraykit/collection/inplace_vector.h b/stingraykit/collection/inplace_vector.h
index 34d68f2..6906b42 100644
--- a/stingraykit/collection/inplace_vector.h
+++ b/stingraykit/collection/inplace_vector.h
@@ -111,6 +111,9 @@ namespace stingray
 
 		inplace_vector& operator = (const inplace_vector& other)
 		{
+			if (this == &other)
+				return *this;
+
 			clear();
 			Copy(other);
 			return *this;
@@ -118,6 +121,9 @@ namespace stingray
 
 		inplace_vector& operator = (inplace_vector&& other)
 		{
+			if (this == &other)
+				return *this;
+
 			clear();
 			Move(std::move(other));
 			return *this;
-- 
2.43.0


From 3c862700c1146a31e55510d562976a9fe8127a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 07/92] fix: ReverseFind of MultiMapDictionary and
 SortedMultiSet missed the greatest key

---
 stingraykit/collection/MultiMapDictionary.h | 2 +-
 stingraykit/collection/SortedMultiSet.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/MultiMapDictionary.h b/stingraykit/collection/MultiMapDictionary.h
index 8040b06..36553d3 100644
--- a/stingraykit/collection/MultiMapDictionary.h
+++ b/stingraykit/collection/MultiMapDictionary.h
@@ -122,7 +122,7 @@ namespace stingray
 			using cri = typename MapType::const_reverse_iterator;
 
 			const auto it = _map->upper_bound(key);
-			if (it == _map->end() || KeyCompareType()(cri(it)->first, key))
+			if (it == _map->begin() || KeyCompareType()(cri(it)->first, key))
 				return MakeEmptyEnumerator();
 
 			return WrapMapEnumerator(EnumeratorFromStlIterators(cri(it), _map->crend(), GetMapHolder()));
diff --git a/stingraykit/collection/SortedMultiSet.h b/stingraykit/collection/SortedMultiSet.h
index 67baf35..c70306e 100644
--- a/stingraykit/collection/SortedMultiSet.h
+++ b/stingraykit/collection/SortedMultiSet.h
@@ -112,7 +112,7 @@ namespace stingray
 			using cri = typename SetType::const_reverse_iterator;
 
 			const auto it = _items->upper_bound(value);
-			if (it == _items->end() || CompareType_()(*cri(it), value))
+			if (it == _items->begin() || CompareType_()(*cri(it), value))
 				return MakeEmptyEnumerator();
 
 			return EnumeratorFromStlIterators(cri(it), _items->crend(), GetItemsHolder());
-- 
2.43.0


From 5f3fb5b5d53222765314f746c5591d5fc1b4f3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 08/92] fix: TransactionalList transaction applied an Added
 entry by overwriting instead of inserting

---
 stingraykit/collection/TransactionalList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/collection/TransactionalList.h b/stingraykit/collection/TransactionalList.h
index 3347cd6..8921da5 100644
--- a/stingraykit/collection/TransactionalList.h
+++ b/stingraykit/collection/TransactionalList.h
@@ -325,7 +325,7 @@ namespace stingray
 				switch (entry.Op)
 				{
 				case CollectionOp::Added:
-					Set(entry.Item.Key, entry.Item.Value);
+					Insert(entry.Item.Key, entry.Item.Value);
 					break;
 				case CollectionOp::Updated:
 					Set(entry.Item.Key, entry.Item.Value);
-- 
2.43.0


From 03654198eba8dd4effbbb512352814cd5154e841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 09/92] fix: random-access movement of a reversed range failed
 at and from its end

---
 stingraykit/collection/Range.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index f4d4edc..585ba7e 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -377,13 +377,30 @@ namespace stingray
 			}
 
 			size_t GetPosition() const
-			{ return static_cast<int>(_impl.GetSize()) - static_cast<int>(_impl.GetPosition()) - (_implBeforeBegin ? 0 : 1); }
+			{ return Valid() ? _impl.GetSize() - _impl.GetPosition() - 1 : _impl.GetSize(); }
 
 			size_t GetSize() const
 			{ return _impl.GetSize(); }
 
 			Self& Move(int distance)
-			{ _impl.Move(-distance); return *this; }
+			{
+				const size_t size = GetSize();
+				const size_t position = GetPosition() + distance;
+				STINGRAYKIT_CHECK(position <= size, IndexOutOfRangeException(position, size));
+
+				if (position == size)
+				{
+					_impl.First();
+					_implBeforeBegin = _impl.Valid();
+				}
+				else
+				{
+					_impl.Move(static_cast<int>(size - position - 1) - static_cast<int>(_impl.GetPosition()));
+					_implBeforeBegin = false;
+				}
+
+				return *this;
+			}
 		};
 
 
-- 
2.43.0


From 0294a90cc6b22430036058cc5c8b882d28a712ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 10/92] fix: last fragment of a split range was skipped when
 all fragments were full

---
 stingraykit/collection/Range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index 585ba7e..f9ad89d 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -738,7 +738,7 @@ namespace stingray
 
 			Self& Last()
 			{
-				_it = std::next(_begin, AlignDown(std::distance(_begin, _end), _maxFragmentSize));
+				_it = std::next(_begin, _begin == _end ? 0 : AlignDown(std::distance(_begin, _end) - 1, _maxFragmentSize));
 				_value.reset();
 				return *this;
 			}
-- 
2.43.0


From bf8dd66b0cd287feb90f08629b0e26cefae5719e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 11/92] fix: begin and end of a flattened range without
 elements differed

---
 stingraykit/collection/Range.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index f9ad89d..b212388 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -836,6 +836,9 @@ namespace stingray
 				_range.Last();
 				_currentSubRange = FindPrev();
 
+				if (!_currentSubRange)
+					First();
+
 				return *this;
 			}
 
-- 
2.43.0


From a745e973f78225af42c8d556fe2cef709c12314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 12/92] fix: a throwing removal callback left an entry without
 references

---
 stingraykit/collection/RefCountingMap.h   | 10 ++++++++--
 stingraykit/collection/RefCountingSet.h   | 14 ++++++++++----
 stingraykit/collection/RefCountingValue.h | 13 ++++++++-----
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/stingraykit/collection/RefCountingMap.h b/stingraykit/collection/RefCountingMap.h
index bcc4676..2e4f337 100644
--- a/stingraykit/collection/RefCountingMap.h
+++ b/stingraykit/collection/RefCountingMap.h
@@ -127,8 +127,11 @@ namespace stingray
 			if (implIt == _impl.end())
 				return 0;
 
-			if (--implIt->second.References > 0)
+			if (implIt->second.References > 1)
+			{
+				--implIt->second.References;
 				return 1;
+			}
 
 			doRemoveFunc(implIt->first, implIt->second.Value);
 			_impl.erase(implIt);
@@ -139,8 +142,11 @@ namespace stingray
 		void erase(iterator it, const DoRemoveFunc& doRemoveFunc)
 		{
 			const typename Impl::iterator implIt = it.GetImpl();
-			if (--implIt->second.References > 0)
+			if (implIt->second.References > 1)
+			{
+				--implIt->second.References;
 				return;
+			}
 
 			doRemoveFunc(implIt->first, implIt->second.Value);
 			_impl.erase(implIt);
diff --git a/stingraykit/collection/RefCountingSet.h b/stingraykit/collection/RefCountingSet.h
index 11e37a9..55de2dd 100644
--- a/stingraykit/collection/RefCountingSet.h
+++ b/stingraykit/collection/RefCountingSet.h
@@ -70,11 +70,14 @@ namespace stingray
 			if (it == _impl.end())
 				return 0;
 
-			if (--it->second == 0)
+			if (it->second > 1)
 			{
-				doRemoveFunc(it->first);
-				_impl.erase(it);
+				--it->second;
+				return 1;
 			}
+
+			doRemoveFunc(it->first);
+			_impl.erase(it);
 			return 1;
 		}
 
@@ -82,8 +85,11 @@ namespace stingray
 		void erase(iterator it, const DoRemoveFunc& doRemoveFunc)
 		{
 			const typename Impl::iterator implIt = it.base();
-			if (--implIt->second > 0)
+			if (implIt->second > 1)
+			{
+				--implIt->second;
 				return;
+			}
 
 			doRemoveFunc(implIt->first);
 			_impl.erase(implIt);
diff --git a/stingraykit/collection/RefCountingValue.h b/stingraykit/collection/RefCountingValue.h
index ae9d349..ad510c8 100644
--- a/stingraykit/collection/RefCountingValue.h
+++ b/stingraykit/collection/RefCountingValue.h
@@ -48,12 +48,16 @@ namespace stingray
 			if (_refs == 0)
 				return false;
 
-			if (--_refs == 0)
+			if (_refs > 1)
 			{
-				doReleaseFunc(*_value);
-				_value.reset();
+				--_refs;
+				return true;
 			}
 
+			doReleaseFunc(*_value);
+			_refs = 0;
+			_value.reset();
+
 			return true;
 		}
 
@@ -63,9 +67,8 @@ namespace stingray
 			if (_refs == 0)
 				return;
 
-			_refs = 0;
-
 			doReleaseFunc(*_value);
+			_refs = 0;
 			_value.reset();
 		}
 	};
-- 
2.43.0


From 9b7616716dd3ed9f22502b367beaa70a9f9c2019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 13/92] fix: slices of a ByteArray could leave the window of
 the sliced array

---
 stingraykit/collection/ByteData.h | 40 ++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/stingraykit/collection/ByteData.h b/stingraykit/collection/ByteData.h
index d9e9dce..027d158 100644
--- a/stingraykit/collection/ByteData.h
+++ b/stingraykit/collection/ByteData.h
@@ -182,31 +182,23 @@ namespace stingray
 
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteArray(const BasicByteArray<U>& other, size_t offset)
-			: _data(other._data), _offset(other._offset + offset), _sizeLimit(other._sizeLimit == NoSizeLimit ? NoSizeLimit : other._sizeLimit - offset)
-		{ STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size())); }
+			: _data(other._data), _offset(other._offset), _sizeLimit(other._sizeLimit)
+		{ Slice(offset); }
 
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteArray(BasicByteArray<U>&& other, size_t offset)
-			: _data(std::move(other._data)), _offset(other._offset + offset), _sizeLimit(other._sizeLimit == NoSizeLimit ? NoSizeLimit : other._sizeLimit - offset)
-		{ STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size())); }
+			: _data(std::move(other._data)), _offset(other._offset), _sizeLimit(other._sizeLimit)
+		{ Slice(offset); }
 
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteArray(const BasicByteArray<U>& other, size_t offset, size_t sizeLimit)
-			: _data(other._data), _offset(other._offset + offset), _sizeLimit(sizeLimit)
-		{
-			STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size()));
-			STINGRAYKIT_CHECK(_sizeLimit == NoSizeLimit || _sizeLimit + offset <= _data->size(), IndexOutOfRangeException(_sizeLimit + offset, offset, _data->size()));
-			STINGRAYKIT_CHECK(_sizeLimit + offset <= other._sizeLimit, IndexOutOfRangeException(_sizeLimit + offset, offset, other._sizeLimit));
-		}
+			: _data(other._data), _offset(other._offset), _sizeLimit(other._sizeLimit)
+		{ Slice(offset, sizeLimit); }
 
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteArray(BasicByteArray<U>&& other, size_t offset, size_t sizeLimit)
-			: _data(std::move(other._data)), _offset(other._offset + offset), _sizeLimit(sizeLimit)
-		{
-			STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size()));
-			STINGRAYKIT_CHECK(_sizeLimit == NoSizeLimit || _sizeLimit + offset <= _data->size(), IndexOutOfRangeException(_sizeLimit + offset, offset, _data->size()));
-			STINGRAYKIT_CHECK(_sizeLimit + offset <= other._sizeLimit, IndexOutOfRangeException(_sizeLimit + offset, offset, other._sizeLimit));
-		}
+			: _data(std::move(other._data)), _offset(other._offset), _sizeLimit(other._sizeLimit)
+		{ Slice(offset, sizeLimit); }
 
 		void RequireSize(size_t size)
 		{
@@ -327,6 +319,22 @@ namespace stingray
 		{ return std::lexicographical_compare(data(), data() + size(), other.data(), other.data() + other.size()); }
 
 		STINGRAYKIT_GENERATE_RELATIONAL_OPERATORS_FROM_LESS(BasicByteArray);
+
+	private:
+		void Slice(size_t offset)
+		{
+			STINGRAYKIT_CHECK(offset <= size(), IndexOutOfRangeException(offset, size()));
+			_offset += offset;
+			if (_sizeLimit != NoSizeLimit)
+				_sizeLimit -= offset;
+		}
+
+		void Slice(size_t offset, size_t sizeLimit)
+		{
+			Slice(offset);
+			STINGRAYKIT_CHECK(sizeLimit <= size() || (sizeLimit == NoSizeLimit && _sizeLimit == NoSizeLimit), IndexOutOfRangeException(sizeLimit, offset, size()));
+			_sizeLimit = sizeLimit;
+		}
 	};
 
 
-- 
2.43.0


From aef5c2f106d4fe35877c9c8c37663b55600b9fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 14/92] fix: the bounds check of ByteData slices could overflow

---
 stingraykit/collection/ByteData.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/ByteData.h b/stingraykit/collection/ByteData.h
index 027d158..e16c7e8 100644
--- a/stingraykit/collection/ByteData.h
+++ b/stingraykit/collection/ByteData.h
@@ -400,7 +400,10 @@ namespace stingray
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteData(const BasicByteArray<U>& array, size_t offset, size_t size)
 			: _data(array.data() + offset), _size(size)
-		{ DETAIL_BYTEDATA_INDEX_CHECK(offset + _size, array.size()); }
+		{
+			DETAIL_BYTEDATA_INDEX_CHECK(offset, array.size());
+			DETAIL_BYTEDATA_INDEX_CHECK(_size, array.size() - offset);
+		}
 
 		template < typename U, size_t N >
 		BasicByteData(U(&arr)[N])
@@ -417,7 +420,10 @@ namespace stingray
 
 		BasicByteData(BasicByteData data, size_t offset, size_t size)
 			: _data(data._data + offset), _size(size)
-		{ DETAIL_BYTEDATA_INDEX_CHECK(offset + size, data._size); }
+		{
+			DETAIL_BYTEDATA_INDEX_CHECK(offset, data._size);
+			DETAIL_BYTEDATA_INDEX_CHECK(size, data._size - offset);
+		}
 
 		T& operator [] (size_t index) const
 		{
-- 
2.43.0


From 30e85bc1d920fde71f207a9f7bf5cb45a29a9a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 15/92] fix: bit fields wider than the written type and
 little-endian fields of uneven sizes were written or read wrong

---
 stingraykit/BitsGetter.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/stingraykit/BitsGetter.h b/stingraykit/BitsGetter.h
index 4912240..2219d0d 100644
--- a/stingraykit/BitsGetter.h
+++ b/stingraykit/BitsGetter.h
@@ -168,7 +168,7 @@ namespace stingray
 					}
 				}
 				if (!BigEndian)
-					result = SwappableType<MinimalT>::Swap(result << (sizeof(MinimalT) * 8 - SizeBits)); //24 bit values are shifted left, so 11 22 33 becomes 00 33 22 11, not 33 22 11 00
+					result = SwappableType<MinimalT>::Swap(result << ((sizeof(MinimalT) - (SizeBits + 7) / 8) * 8)); //24 bit values are shifted left, so 11 22 33 becomes 00 33 22 11, not 33 22 11 00
 				return static_cast<typename BitsGetterResultType<T>::ValueT>(result);
 			}
 		};
@@ -208,7 +208,7 @@ namespace stingray
 					result = (result << 8) | _buf[offset + i];
 
 				if (!BigEndian)
-					result = SwappableType<MinimalT>::Swap(result << (sizeof(MinimalT) * 8 - SizeBits)); //24 bit values are shifted left, so 11 22 33 becomes 00 33 22 11, not 33 22 11 00
+					result = SwappableType<MinimalT>::Swap(result << ((sizeof(MinimalT) - (SizeBits + 7) / 8) * 8)); //24 bit values are shifted left, so 11 22 33 becomes 00 33 22 11, not 33 22 11 00
 				return static_cast<typename BitsGetterResultType<T>::ValueT>(result);
 			}
 
@@ -275,13 +275,13 @@ namespace stingray
 				ByteDataResizer::RequireSize(_buf, required_size, 0);
 				STINGRAYKIT_CHECK(required_size <= _buf.size(), IndexOutOfRangeException(required_size, _buf.size()));
 
-				typedef typename ShiftableType<T>::ValueT			ShiftableT;
+				typedef typename WidestTypeSelector<SizeBits, typename ShiftableType<T>::ValueT>::ValueT	ShiftableT;
 				typedef typename BitsGetterResultType<T>::ValueT	ResType;
 				typedef typename MinimalTypeSelector<SizeBits>::ValueT		MinimalT;
 
-				ShiftableT shiftable_val = static_cast<ShiftableT>(static_cast<ResType>(val));
+				ShiftableT shiftable_val = static_cast<typename ShiftableType<T>::ValueT>(static_cast<ResType>(val));
 				if (!BigEndian)
-					shiftable_val = SwappableType<MinimalT>::Swap(shiftable_val);
+					shiftable_val = SwappableType<MinimalT>::Swap(shiftable_val) >> ((sizeof(MinimalT) - (SizeBits + 7) / 8) * 8);
 
 				size_t cur_byte = OffsetBits / 8;
 				int msb = 8 - (OffsetBits % 8);
@@ -332,13 +332,13 @@ namespace stingray
 				ByteDataResizer::RequireSize(_buf, required_size, 0);
 				STINGRAYKIT_CHECK(required_size <= _buf.size(), IndexOutOfRangeException(required_size, _buf.size()));
 
-				typedef typename ShiftableType<T>::ValueT			ShiftableT;
+				typedef typename WidestTypeSelector<SizeBits, typename ShiftableType<T>::ValueT>::ValueT	ShiftableT;
 				typedef typename BitsGetterResultType<T>::ValueT	ResType;
 				typedef typename MinimalTypeSelector<SizeBits>::ValueT		MinimalT;
 
-				ShiftableT shiftable = static_cast<ShiftableT>(static_cast<ResType>(val));
+				ShiftableT shiftable = static_cast<typename ShiftableType<T>::ValueT>(static_cast<ResType>(val));
 				if (!BigEndian)
-					shiftable = SwappableType<MinimalT>::Swap(shiftable);
+					shiftable = SwappableType<MinimalT>::Swap(shiftable) >> ((sizeof(MinimalT) - (SizeBits + 7) / 8) * 8);
 
 				const size_t offset = OffsetBits / 8;
 				const size_t count = SizeBits / 8;
-- 
2.43.0


From 097a8ac1370598dd23d659c2429a689c84140c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 16/92] fix: BitStream position arithmetic overflowed beyond
 the end of the data

---
 stingraykit/io/BitStream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/BitStream.h b/stingraykit/io/BitStream.h
index 9994705..e449b71 100644
--- a/stingraykit/io/BitStream.h
+++ b/stingraykit/io/BitStream.h
@@ -144,8 +144,8 @@ namespace stingray
 		BasicBitStream(const BasicBitStream &bitStream, size_t bytesOffset, size_t size) : _buf(bitStream._buf, bytesOffset, size), _offset(0) { }
 
 		inline bool AtEnd() const						{ return (_offset >> 3) >= _buf.size(); }
-		inline bool CanRead(size_t more_bits)			{ return (_offset + more_bits) <= (_buf.size() << 3); }
-		inline size_t GetRemainingBitsCount() const		{ return (_buf.size() << 3) - _offset; }
+		inline bool CanRead(size_t more_bits)			{ return _offset <= (_buf.size() << 3) && more_bits <= GetRemainingBitsCount(); }
+		inline size_t GetRemainingBitsCount() const		{ return AtEnd() ? 0 : (_buf.size() << 3) - _offset; }
 
 		template<int Size>
 		Detail::BasicBitStreamReadProxy<ByteDataType_, BigEndian, Size> Read()
-- 
2.43.0


From a9bf0b85c04dda6db5e114881dbfe462ee0e35c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 17/92] fix: IntegerBuilder did not cut signed fields to their
 size

---
 stingraykit/IntegerBuilder.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stingraykit/IntegerBuilder.h b/stingraykit/IntegerBuilder.h
index a89d2c2..b9282c9 100644
--- a/stingraykit/IntegerBuilder.h
+++ b/stingraykit/IntegerBuilder.h
@@ -50,8 +50,11 @@ namespace stingray
 
 	private:
 		template<typename U>
-		U ResetMostSignificantBits(const U& field, size_t count)
-		{ return field & (static_cast<U>(~0) >> count); }
+		typename IntType<8 * sizeof(U), false>::ValueT ResetMostSignificantBits(const U& field, size_t count)
+		{
+			using Unsigned = typename IntType<8 * sizeof(U), false>::ValueT;
+			return count < 8 * sizeof(U) ? static_cast<Unsigned>(field) & (static_cast<Unsigned>(~Unsigned(0)) >> count) : 0;
+		}
 	};
 
 	/** @} */
-- 
2.43.0


From c8ab17921bd3ae97224248d61316136cc4da530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 18/92] fix: BigUnsignedInteger comparison did not start with
 the most significant unit

---
 stingraykit/BigNum.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/stingraykit/BigNum.cpp b/stingraykit/BigNum.cpp
index 239689f..a618b66 100644
--- a/stingraykit/BigNum.cpp
+++ b/stingraykit/BigNum.cpp
@@ -589,11 +589,7 @@ namespace stingray
 		if (_units.size() > other._units.size())
 			return false;
 
-		for (size_t i = 0; i < _units.size(); ++i)
-			if (_units[i] < other._units[i])
-				return true;
-
-		return false;
+		return std::lexicographical_compare(_units.rbegin(), _units.rend(), other._units.rbegin(), other._units.rend());
 	}
 
 }
-- 
2.43.0


From 7edb9fc7a2322a2c0b85924b4b9b16ce75a1bfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 19/92] fix: BigUnsignedInteger made from a zero was not
 recognized as zero

---
 stingraykit/BigNum.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/BigNum.h b/stingraykit/BigNum.h
index bba2b60..30799e7 100644
--- a/stingraykit/BigNum.h
+++ b/stingraykit/BigNum.h
@@ -57,7 +57,8 @@ namespace stingray
 		BigUnsignedInteger(T source, typename EnableIf<sizeof(BlockType) >= sizeof(T), Dummy*>::ValueT dummy = 0)
 		{
 			STINGRAYKIT_CHECK(source >= 0, ArgumentException("source", source));
-			_units.push_back(source);
+			if (source != 0)
+				_units.push_back(source);
 		}
 
 		template <typename T>
-- 
2.43.0


From a760b33b7934285499119e99cfd1b3f1a01e9e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 20/92] fix: BigUnsignedInteger::ToPrimitive returned negative
 values for large numbers

---
 stingraykit/BigNum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/BigNum.h b/stingraykit/BigNum.h
index 30799e7..4c79f2a 100644
--- a/stingraykit/BigNum.h
+++ b/stingraykit/BigNum.h
@@ -70,7 +70,7 @@ namespace stingray
 			if (_units.size() == 1)
 			{
 				T result(_units.at(0));
-				if ((BlockType)result == _units.at(0))
+				if (result >= 0 && (BlockType)result == _units.at(0))
 					return result;
 			}
 			STINGRAYKIT_THROW(NotImplementedException());
-- 
2.43.0


From 7a137f3c36d727f94362780966cb63c73696c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 21/92] fix: Decimal arithmetic, comparison and parsing lost
 precision in floating point

---
 stingraykit/Decimal.cpp | 48 +++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/stingraykit/Decimal.cpp b/stingraykit/Decimal.cpp
index 65087ae..647796d 100644
--- a/stingraykit/Decimal.cpp
+++ b/stingraykit/Decimal.cpp
@@ -9,7 +9,7 @@
 
 #include <stingraykit/string/StringUtils.h>
 
-#include <cmath>
+#include <limits>
 
 namespace stingray
 {
@@ -34,8 +34,40 @@ namespace stingray
 			return source;
 		}
 
+		s64 PowerOfBase(u16 exponent)
+		{
+			s64 result = 1;
+			for (; exponent > 0; --exponent)
+			{
+				STINGRAYKIT_CHECK(result <= std::numeric_limits<s64>::max() / BaseOfExponent, ArgumentException("exponent"));
+				result *= BaseOfExponent;
+			}
+			return result;
+		}
+
 		s64 PowToExponent(const Decimal& decimal, u16 exponent)
-		{ return decimal.GetMantissa() * std::pow(BaseOfExponent, exponent - decimal.GetExponent()); }
+		{ return decimal.GetMantissa() == 0 ? 0 : decimal.GetMantissa() * PowerOfBase(exponent - decimal.GetExponent()); }
+
+		int CompareWithScaled(s64 value, s64 scaled, u16 exponent) // compares value with scaled / 10^exponent
+		{
+			bool hasRemainder = false;
+			const bool isNegative = scaled < 0;
+			for (; exponent > 0 && scaled != 0; --exponent)
+			{
+				hasRemainder |= scaled % BaseOfExponent != 0;
+				scaled /= BaseOfExponent;
+			}
+			if (value != scaled)
+				return value < scaled ? -1 : 1;
+			return hasRemainder ? (isNegative ? 1 : -1) : 0;
+		}
+
+		int CompareDecimals(const Decimal& lhs, const Decimal& rhs)
+		{
+			if (lhs.GetExponent() <= rhs.GetExponent())
+				return CompareWithScaled(lhs.GetMantissa(), rhs.GetMantissa(), rhs.GetExponent() - lhs.GetExponent());
+			return -CompareWithScaled(rhs.GetMantissa(), lhs.GetMantissa(), lhs.GetExponent() - rhs.GetExponent());
+		}
 
 	}
 
@@ -61,7 +93,7 @@ namespace stingray
 		const s64 fractionalPart = croppedFractionalPart.empty() ? 0 : stingray::FromString<s64>(croppedFractionalPart);
 
 		const u16 exponent = (u16)croppedFractionalPart.size();
-		const s64 integralMantissa = integralPart * std::pow(BaseOfExponent, exponent);
+		const s64 integralMantissa = integralPart == 0 ? 0 : integralPart * PowerOfBase(exponent);
 		const s64 fractionalMantissa = integralPart >= 0 ? fractionalPart : -fractionalPart;
 		const int signFactor = !rawIntegralPart.empty() && rawIntegralPart[0] == '-' && integralPart == 0 ? -1 : 1;
 
@@ -92,17 +124,11 @@ namespace stingray
 
 
 	bool Decimal::operator == (const Decimal& other) const
-	{
-		const u16 maxExponent = std::max(_exponent, other._exponent);
-		return PowToExponent(*this, maxExponent) == PowToExponent(other, maxExponent);
-	}
+	{ return CompareDecimals(*this, other) == 0; }
 
 
 	bool Decimal::operator < (const Decimal& other) const
-	{
-		const u16 maxExponent = std::max(_exponent, other._exponent);
-		return PowToExponent(*this, maxExponent) < PowToExponent(other, maxExponent);
-	}
+	{ return CompareDecimals(*this, other) < 0; }
 
 
 	Decimal& Decimal::operator += (const Decimal& other)
-- 
2.43.0


From 481c156c774b9953f5453f8c6bf0533da1d8fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 22/92] fix: Decimal multiplication overflowed on operands with
 different exponents

---
 stingraykit/Decimal.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stingraykit/Decimal.cpp b/stingraykit/Decimal.cpp
index 647796d..8137465 100644
--- a/stingraykit/Decimal.cpp
+++ b/stingraykit/Decimal.cpp
@@ -142,9 +142,8 @@ namespace stingray
 
 	Decimal& Decimal::operator *= (const Decimal& other)
 	{
-		const u16 maxExponent = std::max(_exponent, other._exponent);
-		_mantissa = PowToExponent(*this, maxExponent) * PowToExponent(other, maxExponent);
-		_exponent = maxExponent + maxExponent;
+		_mantissa *= other._mantissa;
+		_exponent += other._exponent;
 		return *this;
 	}
 
-- 
2.43.0


From 9b7b88cf1b2564a00a47ca76727f5b629dabe63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 23/92] fix: Decimal::ToString printed negative fractions with
 a misplaced sign

---
 stingraykit/Decimal.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stingraykit/Decimal.cpp b/stingraykit/Decimal.cpp
index 8137465..9e32830 100644
--- a/stingraykit/Decimal.cpp
+++ b/stingraykit/Decimal.cpp
@@ -104,7 +104,9 @@ namespace stingray
 
 	std::string Decimal::ToString() const
 	{
-		const std::string value = AddSignificantZeros(stingray::ToString(_mantissa), _exponent);
+		const std::string mantissa = stingray::ToString(_mantissa);
+		const std::string sign = _mantissa < 0 ? "-" : "";
+		const std::string value = sign + AddSignificantZeros(RemovePrefix(mantissa, sign), _exponent);
 
 		std::string integralPart = ExtractPrefix(value, value.size() - _exponent);
 
-- 
2.43.0


From 7b2220cfbafabb917c33aac59eb3031129b95925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:29 +0000
Subject: [PATCH 24/92] fix: Decimal parsing accepted a sign inside the
 fraction

---
 stingraykit/Decimal.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stingraykit/Decimal.cpp b/stingraykit/Decimal.cpp
index 9e32830..12f689d 100644
--- a/stingraykit/Decimal.cpp
+++ b/stingraykit/Decimal.cpp
@@ -87,7 +87,11 @@ namespace stingray
 		const string_view rawFractionalPart = str.substr(pointPos + 1);
 		STINGRAYKIT_CHECK(!rawIntegralPart.empty() || !rawFractionalPart.empty(), ArgumentException("str", str));
 
-		const s64 integralPart = rawIntegralPart.empty() ? 0 : stingray::FromString<s64>(rawIntegralPart);
+		STINGRAYKIT_CHECK(rawFractionalPart.empty() || (rawFractionalPart[0] >= '0' && rawFractionalPart[0] <= '9'), FormatException(str.copy()));
+
+		const bool hasIntegralPart = !rawIntegralPart.empty() && rawIntegralPart != "-" && rawIntegralPart != "+";
+		STINGRAYKIT_CHECK(hasIntegralPart || !rawFractionalPart.empty(), ArgumentException("str", str));
+		const s64 integralPart = !hasIntegralPart ? 0 : stingray::FromString<s64>(rawIntegralPart);
 
 		const string_view croppedFractionalPart = RemoveUnsignificantZeros(rawFractionalPart);
 		const s64 fractionalPart = croppedFractionalPart.empty() ? 0 : stingray::FromString<s64>(croppedFractionalPart);
-- 
2.43.0


From 96f0074d300107845cd2409179c2e341b91ebd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:29 +0000
Subject: [PATCH 25/92] fix: FromString accepted a sign without digits as a
 zero

---
 stingraykit/string/ToString.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stingraykit/string/ToString.h b/stingraykit/string/ToString.h
index 9f63300..55e125a 100644
--- a/stingraykit/string/ToString.h
+++ b/stingraykit/string/ToString.h
@@ -98,6 +98,8 @@ namespace stingray
 				if (negative || str[0] == '+')
 					++index;
 
+				STINGRAYKIT_CHECK(index < str.size(), FormatException(ToString(str)));
+
 				for (size_t index2 = index; index2 < str.size(); ++index2)
 				{
 					const char ch = str[index2];
-- 
2.43.0


From e925c1ecb6b79476fd23e20db56fa4da3fcb37c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 26/92] fix: fixed_point::sqrt was wrong for all but small
 values

---
 stingraykit/fixed_point.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/fixed_point.h b/stingraykit/fixed_point.h
index 9076e94..86a7790 100644
--- a/stingraykit/fixed_point.h
+++ b/stingraykit/fixed_point.h
@@ -96,10 +96,10 @@ namespace stingray
 		{
 			fixed_point ret(0);
 			DoubleType ret_sq = -((DoubleType)value << (N * 2)) - 1;
-			for (int s = 30; s >= 0; s -= 2)
+			for (int s = (int)(sizeof(DoubleType) * 8) - 2; s >= 0; s -= 2)
 			{
 				ret._value += ret._value;
-				DoubleType b = ret_sq + ((2 * ret._value + 1) << s);
+				DoubleType b = ret_sq + ((2 * (DoubleType)ret._value + 1) << s);
 				if (b < 0)
 				{
 					ret_sq = b;
-- 
2.43.0


From 49f9e6ca6528b6523efd436fc52ceb218d93e648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 27/92] fix: fixed_point::ToString printed wrong fractions

---
 stingraykit/fixed_point.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stingraykit/fixed_point.h b/stingraykit/fixed_point.h
index 86a7790..d230824 100644
--- a/stingraykit/fixed_point.h
+++ b/stingraykit/fixed_point.h
@@ -111,8 +111,9 @@ namespace stingray
 
 		std::string ToString() const
 		{
-			value_type res = (*this * 1000).to_int();
-			return StringBuilder() % (res / 1000) % "." % (res % 1000);
+			const DoubleType absValue = _value < 0 ? -(DoubleType)_value : (DoubleType)_value;
+			const DoubleType fraction = ((absValue & (((DoubleType)1 << N) - 1)) * 1000) >> N;
+			return StringBuilder() % (_value < 0 ? "-" : "") % (absValue >> N) % "." % RightJustify(stingray::ToString(fraction), 3, '0');
 		}
 
 		static fixed_point FromRawValue(value_type value)
-- 
2.43.0


From c5db1ef0a5214b3dedac6fb6894597dc5422d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 28/92] fix: rounding fractions longer than 19 digits reported
 bogus overflows

---
 stingraykit/math.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stingraykit/math.cpp b/stingraykit/math.cpp
index 0bb52a7..cbff71d 100644
--- a/stingraykit/math.cpp
+++ b/stingraykit/math.cpp
@@ -33,7 +33,11 @@ namespace stingray
 
 			u64 precisionBase = 1;
 			for (unsigned index = 0; index < precision; ++index)
+			{
+				if (precisionBase > std::numeric_limits<u64>::max() / radix)
+					return { fraction, precision, false };
 				precisionBase *= radix;
+			}
 
 			const bool isOverflow = fraction >= precisionBase;
 			if (isOverflow)
-- 
2.43.0


From 6d50a83655d195c4636db2e0b58fd4029cb398ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 29/92] fix: fixed_point::FromString read negative and long
 fractions wrong

---
 stingraykit/fixed_point.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/stingraykit/fixed_point.h b/stingraykit/fixed_point.h
index d230824..9e95d2a 100644
--- a/stingraykit/fixed_point.h
+++ b/stingraykit/fixed_point.h
@@ -129,11 +129,16 @@ namespace stingray
 				return stingray::FromString<value_type>(v[0]);
 			case 2:
 			{
-				fixed_point integral_part = stingray::FromString<value_type>(v[0]);
-				fixed_point fractional_part = stingray::FromString<value_type>(v[1]);
-				for (size_t i = 0; i < v[1].size(); ++i)
-					fractional_part /= 10;
-				return integral_part + fractional_part;
+				STINGRAYKIT_CHECK(v[1].find_first_not_of("0123456789") == std::string::npos, ArgumentException("str", str));
+
+				const fixed_point integral_part = stingray::FromString<value_type>(v[0]);
+
+				DoubleType fraction = 0;
+				for (std::string::const_reverse_iterator it = v[1].rbegin(); it != v[1].rend(); ++it)
+					fraction = (((DoubleType)(*it - '0') << N) + fraction) / 10;
+
+				const fixed_point fractional_part((value_type)fraction, false);
+				return StartsWith(v[0], "-") ? integral_part - fractional_part : integral_part + fractional_part;
 			}
 			default:
 				STINGRAYKIT_THROW(ArgumentException("str", str));
-- 
2.43.0


From e4fcd5a21502feac28930ac0765f16e6fcffdbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 30/92] fix: convert sizes near the upper limit of u64 to human
 readable form

---
 stingraykit/string/HumanReadableSize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/string/HumanReadableSize.cpp b/stingraykit/string/HumanReadableSize.cpp
index 6a72658..67d6313 100644
--- a/stingraykit/string/HumanReadableSize.cpp
+++ b/stingraykit/string/HumanReadableSize.cpp
@@ -39,7 +39,7 @@ namespace stingray
 			u64 rounded = roundedInUnits * measUnit;
 			u64 delta = size * allowedErrorFactor;
 
-			if (rounded >= size - delta && rounded <= size + delta)
+			if ((rounded > size ? rounded - size : size - rounded) <= delta)
 			{
 				const std::string sizeString = ToString(roundedInUnits) + whitespace;
 				return i > 0 ? sizeString + Suffixes[i - 1] : sizeString;
-- 
2.43.0


From c4b4b16175e4b266d01a9e6508a8c344c63b25e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 31/92] fix: reject human readable sizes that do not fit into
 u64

---
 stingraykit/string/HumanReadableSize.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stingraykit/string/HumanReadableSize.cpp b/stingraykit/string/HumanReadableSize.cpp
index 67d6313..acb3f05 100644
--- a/stingraykit/string/HumanReadableSize.cpp
+++ b/stingraykit/string/HumanReadableSize.cpp
@@ -65,7 +65,11 @@ namespace stingray
 
 			for (size_t i = 0; i < Suffixes.size(); ++i)
 				if (suffix == Suffixes[i])
-					return num * ((u64)1 << (10 * (i + 1)));
+				{
+					const u64 measUnit = (u64)1 << (10 * (i + 1));
+					STINGRAYKIT_CHECK(num <= std::numeric_limits<u64>::max() / measUnit, IndexOutOfRangeException(str, "0", std::numeric_limits<u64>::max()));
+					return num * measUnit;
+				}
 		}
 
 		STINGRAYKIT_THROW(FormatException(str.copy()));
-- 
2.43.0


From 2bf24a92dacf039529f00e2328cd74880b7cea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 32/92] fix: print zero value of enum without zero enumerator
 in parseable form

---
 stingraykit/EnumToString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/EnumToString.cpp b/stingraykit/EnumToString.cpp
index ac42e8f..78b2b87 100644
--- a/stingraykit/EnumToString.cpp
+++ b/stingraykit/EnumToString.cpp
@@ -60,7 +60,7 @@ namespace stingray
 					break;
 			}
 
-			if (flagged_val != val)
+			if (flagged_val != val || result.empty())
 			{
 				string_ostream s;
 				s << (unsigned)val;
-- 
2.43.0


From 18feebe059ff94c4abb858cb96d4dc9bda7e7e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 33/92] fix: reject enum flags that are not separated

---
 stingraykit/EnumToString.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stingraykit/EnumToString.cpp b/stingraykit/EnumToString.cpp
index 78b2b87..ef53f8d 100644
--- a/stingraykit/EnumToString.cpp
+++ b/stingraykit/EnumToString.cpp
@@ -124,6 +124,9 @@ namespace stingray
 
 				if (s_it == str.end())
 					break;
+
+				if (*s_it != '|')
+					STINGRAYKIT_THROW("Cannot parse enum class value: '" + str + "'!");
 			}
 
 			if (!has_nonwhitespace_chars)
-- 
2.43.0


From cb83fef9eeff7870276a2e8796ecb7f4176b4b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 34/92] fix: mark short hex dump of collection as truncated

---
 stingraykit/string/Hex.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stingraykit/string/Hex.h b/stingraykit/string/Hex.h
index 78d2ceb..43785f4 100644
--- a/stingraykit/string/Hex.h
+++ b/stingraykit/string/Hex.h
@@ -317,19 +317,19 @@ namespace stingray
 
 	template < typename T >
 	Detail::ShortHexDumpFormatter ShortHexDump(const std::vector<T>& data, size_t sizeLimit = 16)
-	{ return Detail::ShortHexDumpFormatter(data.data(), std::min(sizeLimit, data.size() * sizeof(T)), sizeLimit); }
+	{ return Detail::ShortHexDumpFormatter(data.data(), data.size() * sizeof(T), sizeLimit); }
 
 	template < typename T, size_t N >
 	Detail::ShortHexDumpFormatter ShortHexDump(const array<T, N>& data, size_t sizeLimit = 16)
-	{ return Detail::ShortHexDumpFormatter(data.data(), std::min(sizeLimit, data.size() * sizeof(T)), sizeLimit); }
+	{ return Detail::ShortHexDumpFormatter(data.data(), data.size() * sizeof(T), sizeLimit); }
 
 	template < typename T >
 	Detail::ShortHexDumpFormatter ShortHexDump(const BasicByteData<T>& data, size_t sizeLimit = 16)
-	{ return Detail::ShortHexDumpFormatter(data.data(), std::min(sizeLimit, data.size() * sizeof(T)), sizeLimit); }
+	{ return Detail::ShortHexDumpFormatter(data.data(), data.size() * sizeof(T), sizeLimit); }
 
 	template < typename T >
 	Detail::ShortHexDumpFormatter ShortHexDump(const BasicByteArray<T>& data, size_t sizeLimit = 16)
-	{ return Detail::ShortHexDumpFormatter(data.data(), std::min(sizeLimit, data.size() * sizeof(T)), sizeLimit); }
+	{ return Detail::ShortHexDumpFormatter(data.data(), data.size() * sizeof(T), sizeLimit); }
 
 	/** @} */
 
-- 
2.43.0


From 17f9c9ffab5b54874d66476f1ed200a87298a049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 35/92] fix: restart splitting from the first item in
 SplitStringRange::First

---
 stingraykit/string/StringUtils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/string/StringUtils.h b/stingraykit/string/StringUtils.h
index 99236fe..2be33b5 100644
--- a/stingraykit/string/StringUtils.h
+++ b/stingraykit/string/StringUtils.h
@@ -249,6 +249,7 @@ namespace stingray
 			Self& First()
 			{
 				_startPos = 0;
+				_next = _search(_string, _startPos);
 				_results = 0;
 				return *this;
 			}
-- 
2.43.0


From 7140fc0bd383b44435fc8d5c031be724108ab801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 36/92] fix: keep own copy of delimiters in IsAnyOf

---
 stingraykit/string/StringUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/string/StringUtils.h b/stingraykit/string/StringUtils.h
index 2be33b5..89b41e7 100644
--- a/stingraykit/string/StringUtils.h
+++ b/stingraykit/string/StringUtils.h
@@ -180,7 +180,7 @@ namespace stingray
 	class IsAnyOf
 	{
 	private:
-		const std::string&		_list;
+		std::string				_list;
 
 	public:
 		explicit IsAnyOf(const std::string& list) : _list(list) { }
-- 
2.43.0


From f93f38367ae440a14f284912b696b050021212b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 37/92] fix: do not hang in ReplaceAll with empty pattern

---
 stingraykit/string/StringUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/string/StringUtils.h b/stingraykit/string/StringUtils.h
index 89b41e7..efa7f6f 100644
--- a/stingraykit/string/StringUtils.h
+++ b/stingraykit/string/StringUtils.h
@@ -28,7 +28,7 @@ namespace stingray
 		using StringViewType = basic_string_view<CharType>;
 
 		typename std::common_type<typename StringType::size_type, typename StringViewType::size_type>::type index = str.find(from);
-		if (index == StringViewType::npos)
+		if (from.empty() || index == StringViewType::npos)
 			return str.copy();
 
 		StringType result(str.copy());
-- 
2.43.0


From d0a21e3e3a2c579aa835b5477eecab94b9d672f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 38/92] fix: do not skip text before the leading literal in
 StringParse

---
 stingraykit/string/StringParse.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/stingraykit/string/StringParse.h b/stingraykit/string/StringParse.h
index 9e3598f..b6eed6a 100644
--- a/stingraykit/string/StringParse.h
+++ b/stingraykit/string/StringParse.h
@@ -143,6 +143,15 @@ namespace stingray
 
 		size_t index = 0;
 		std::string::size_type current_string_pos = 0;
+		if (!tokens.empty() && tokens.front().contains<std::string>())
+		{
+			const std::string prefix = variant_get<std::string>(tokens.front());
+			if (string.compare(0, prefix.length(), prefix) != 0)
+				return false;
+
+			tokens.pop_front();
+			current_string_pos = prefix.length();
+		}
 		while (!tokens.empty() && current_string_pos < string.length())
 		{
 			if (tokens.front().contains<size_t>())
-- 
2.43.0


From cb71973fef8155144d97c2e5e67b8ca99f689834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 39/92] fix: keep StringRef searches and substrings inside of
 its window

---
 stingraykit/string/StringUtils.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stingraykit/string/StringUtils.h b/stingraykit/string/StringUtils.h
index efa7f6f..3fcd0ae 100644
--- a/stingraykit/string/StringUtils.h
+++ b/stingraykit/string/StringUtils.h
@@ -139,11 +139,14 @@ namespace stingray
 		size_type find(const std::string& str, size_type pos = 0) const
 		{
 			const size_type p = _owner->find(str, pos + _begin);
-			return p >= _end ? npos : p - _begin;
+			return p >= _end || str.size() > _end - p ? npos : p - _begin;
 		}
 
 		StringRef substr(size_type pos = 0, size_type n = npos) const
-		{ return StringRef(*_owner, _begin + pos, n == npos ? _end : _begin + pos + n ); }
+		{
+			const size_type offset = std::min(pos, size());
+			return StringRef(*_owner, _begin + offset, _begin + offset + std::min(n, size() - offset));
+		}
 
 		char operator [] (size_type index) const
 		{ return (*_owner)[_begin + index]; }
-- 
2.43.0


From ed2737ecc938741679624cb2f579b7cf56301372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:36 +0000
Subject: [PATCH 40/92] fix: do not search string_view outside of its bounds
 backwards

---
 stingraykit/string/string_view.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/stingraykit/string/string_view.h b/stingraykit/string/string_view.h
index 3f1d2e1..c6b844e 100644
--- a/stingraykit/string/string_view.h
+++ b/stingraykit/string/string_view.h
@@ -181,11 +181,10 @@ namespace stingray
 
 		size_type find_last_of(basic_string_view v, size_type pos = npos) const
 		{
-			if (v.empty())
+			if (v.empty() || empty())
 				return npos;
 
-			if (pos == npos)
-				pos = size() - 1;
+			pos = std::min(pos, size() - 1);
 
 			for (size_type i = 0; i <= pos; ++i)
 				for (const_iterator it = v.begin(); it != v.end(); ++it)
@@ -228,11 +227,10 @@ namespace stingray
 
 		size_type find_last_not_of(basic_string_view v, size_type pos = npos) const
 		{
-			if (v.empty())
+			if (empty())
 				return npos;
 
-			if (pos == npos)
-				pos = size() - 1;
+			pos = std::min(pos, size() - 1);
 
 			for (size_type i = 0; i <= pos; ++i)
 			{
-- 
2.43.0


From cdd5933f56ee4ec98599bd4d898498ef53c7250f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:36 +0000
Subject: [PATCH 41/92] fix: respect position in string_view::find_first_not_of
 with empty set

---
 stingraykit/string/string_view.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/stingraykit/string/string_view.h b/stingraykit/string/string_view.h
index c6b844e..3e155c3 100644
--- a/stingraykit/string/string_view.h
+++ b/stingraykit/string/string_view.h
@@ -200,9 +200,6 @@ namespace stingray
 
 		size_type find_first_not_of(basic_string_view v, size_type pos = 0) const
 		{
-			if (v.empty())
-				return 0;
-
 			for (; pos < size(); ++pos)
 			{
 				bool contains = false;
-- 
2.43.0


From a00e1038a501b66a20ce5058da57bbf3a9b854c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:36 +0000
Subject: [PATCH 42/92] fix: do not truncate difference of sizes in
 string_view::compare

---
 stingraykit/string/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/string/string_view.h b/stingraykit/string/string_view.h
index 3e155c3..ce094f1 100644
--- a/stingraykit/string/string_view.h
+++ b/stingraykit/string/string_view.h
@@ -102,7 +102,7 @@ namespace stingray
 		int compare(basic_string_view v) const
 		{
 			const int result = Traits::compare(data(), v.data(), std::min(size(), v.size()));
-			return result == 0 ? size() - v.size() : result;
+			return result != 0 ? result : size() < v.size() ? -1 : size() > v.size();
 		}
 
 		int compare(size_type pos1, size_type count1, basic_string_view v) const									{ return substr(pos1, count1).compare(v); }
-- 
2.43.0


From 5df7448431bd02cdaea8520bd3738a58f161fef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:59 +0000
Subject: [PATCH 43/92] fix: Utf8IteratorRange accepted overlong forms,
 surrogates and values above U+10FFFF

---
 stingraykit/string/Utf8IteratorRange.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/stingraykit/string/Utf8IteratorRange.h b/stingraykit/string/Utf8IteratorRange.h
index 5076645..67bfa7d 100644
--- a/stingraykit/string/Utf8IteratorRange.h
+++ b/stingraykit/string/Utf8IteratorRange.h
@@ -51,7 +51,7 @@ namespace stingray
 			STINGRAYKIT_CHECK(it != _end, MalformedUtf8Exception());
 
 			const u8 c1 = (u8)*it++;
-			STINGRAYKIT_CHECK((c1 & 0xc0) == 0x80, MalformedUtf8Exception());
+			CheckSecondByte(c0, c1);
 
 			if (c0 >= 0xc2 && c0 <= 0xdf)
 				return ((u32)(c0 & 0x1f) << 6) | (c1 & 0x3f);
@@ -110,7 +110,7 @@ namespace stingray
 			STINGRAYKIT_CHECK(_it != _end, MalformedUtf8Exception());
 
 			const u8 c1 = (u8)*_it++;
-			STINGRAYKIT_CHECK((c1 & 0xc0) == 0x80, MalformedUtf8Exception());
+			CheckSecondByte(c0, c1);
 
 			if (c0 >= 0xc2 && c0 <= 0xdf)
 				return *this;
@@ -158,6 +158,9 @@ namespace stingray
 					default:		STINGRAYKIT_THROW(MalformedUtf8Exception());
 					}
 
+					if (count)
+						CheckSecondByte(c0, (u8)*std::next(_it));
+
 					return *this;
 				}
 
@@ -167,6 +170,16 @@ namespace stingray
 
 			STINGRAYKIT_THROW(MalformedUtf8Exception());
 		}
+
+	private:
+		static void CheckSecondByte(u8 c0, u8 c1)
+		{
+			STINGRAYKIT_CHECK((c1 & 0xc0) == 0x80, MalformedUtf8Exception());
+			STINGRAYKIT_CHECK(c0 != 0xe0 || c1 >= 0xa0, MalformedUtf8Exception()); // overlong form
+			STINGRAYKIT_CHECK(c0 != 0xed || c1 <= 0x9f, MalformedUtf8Exception()); // surrogate
+			STINGRAYKIT_CHECK(c0 != 0xf0 || c1 >= 0x90, MalformedUtf8Exception()); // overlong form
+			STINGRAYKIT_CHECK(c0 != 0xf4 || c1 <= 0x8f, MalformedUtf8Exception()); // above U+10FFFF
+		}
 	};
 
 }
-- 
2.43.0


From 46e9d798ca3fea8451ece35b3cbcfdde958f4154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:59 +0000
Subject: [PATCH 44/92] fix: StringCodec took arbitrary bytes for UTF-8
 continuation bytes and accepted overlong forms

---
 stingraykit/locale/StringCodec.cpp | 31 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/stingraykit/locale/StringCodec.cpp b/stingraykit/locale/StringCodec.cpp
index 08a3324..5dbea67 100644
--- a/stingraykit/locale/StringCodec.cpp
+++ b/stingraykit/locale/StringCodec.cpp
@@ -253,34 +253,31 @@ namespace stingray
 
 		u32 Unpack_ISO_10646_utf8(string_view::const_iterator& it, const string_view::const_iterator& end)
 		{
-			unsigned char c0 = (unsigned char)*it++;
+			const u8 c0 = (u8)*it++;
 			if (c0 <= 0x7f)
 				return c0;
 
-			if (c0 == 0xc0 || c0 == 0xc1 || c0 >= 0xf5 || it == end)
+			if (c0 < 0xc2 || c0 >= 0xf5)
 				return InvalidCharacter;
 
-			unsigned char c1 = (unsigned char)*it++;
-			if (c0 >= 0xc2 && c0 <= 0xdf)
-				return ((c0 & 0x1f) << 6) | (c1 & 0x3f);
+			const unsigned count = c0 < 0xe0 ? 1 : c0 < 0xf0 ? 2 : 3;
+			u32 ucs = c0 & (0x3f >> count);
 
-			if (it == end)
-				return InvalidCharacter;
-
-			unsigned char c2 = (unsigned char)*it++;
-			if (c0 >= 0xe0 && c0 <= 0xef)
-				return ((c0 & 0x0f) << 12) | ((c1 & 0x3f) << 6) | (c2 & 0x3f);
+			for (unsigned n = 0; n < count; ++n)
+			{
+				const u8 min = n != 0 ? 0x80 : c0 == 0xe0 ? 0xa0 : c0 == 0xf0 ? 0x90 : 0x80; // no overlong forms
+				const u8 max = n != 0 ? 0xbf : c0 == 0xed ? 0x9f : c0 == 0xf4 ? 0x8f : 0xbf; // no surrogates, nothing above U+10FFFF
 
-			if (it == end)
-				return InvalidCharacter;
+				if (it == end || (u8)*it < min || (u8)*it > max)
+					return InvalidCharacter;
 
-			unsigned char c3 = (unsigned char)*it++;
-			if (c0 >= 0xf0 && c0 <= 0xf4)
-				return ((c0 & 0x07) << 18) | ((c1 & 0x3f) << 12) | ((c2 & 0x3f) << 6) | (c3 & 0x3f);
+				ucs = (ucs << 6) | ((u8)*it++ & 0x3f);
+			}
 
-			return InvalidCharacter;
+			return ucs;
 		}
 
+
 		u32 Unpack_ISO_10646_utf16be(string_view::const_iterator& it, const string_view::const_iterator& end)
 		{
 			unsigned char c0 = (unsigned char)*it++;
-- 
2.43.0


From 574f3dc2569ca483459922046bea0a3bbd62d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:59 +0000
Subject: [PATCH 45/92] fix: StringCodec decoded UTF-16 surrogate pairs without
 the 0x10000 offset

---
 stingraykit/locale/StringCodec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/locale/StringCodec.cpp b/stingraykit/locale/StringCodec.cpp
index 5dbea67..616fcfe 100644
--- a/stingraykit/locale/StringCodec.cpp
+++ b/stingraykit/locale/StringCodec.cpp
@@ -299,7 +299,7 @@ namespace stingray
 			if (c2 < 0xdc || c2 > 0xdf)
 				return InvalidCharacter;
 
-			return ((c0 & 0x03) << 18) | (c1 << 10) | ((c2 & 0x03) << 8) | c3;
+			return 0x10000 + (((c0 & 0x03) << 18) | (c1 << 10) | ((c2 & 0x03) << 8) | c3);
 		}
 
 		u32 Unpack_ISO_10646_utf16le(string_view::const_iterator& it, const string_view::const_iterator& end)
@@ -323,7 +323,7 @@ namespace stingray
 			if (c3 < 0xdc || c3 > 0xdf)
 				return InvalidCharacter;
 
-			return ((c1 & 0x03) << 18) | (c0 << 10) | ((c3 & 0x03) << 8) | c2;
+			return 0x10000 + (((c1 & 0x03) << 18) | (c0 << 10) | ((c3 & 0x03) << 8) | c2);
 		}
 
 		u32 Unpack_ISO_10646_utf32be(string_view::const_iterator& it, const string_view::const_iterator& end)
-- 
2.43.0


From e9d0d6f79ea1cff4ac4c0533652ff2419055d6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:59 +0000
Subject: [PATCH 46/92] fix: StringCodec passed surrogates in UTF-32 through to
 invalid UTF-8

---
 stingraykit/locale/StringCodec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/locale/StringCodec.cpp b/stingraykit/locale/StringCodec.cpp
index 616fcfe..8800f08 100644
--- a/stingraykit/locale/StringCodec.cpp
+++ b/stingraykit/locale/StringCodec.cpp
@@ -336,7 +336,7 @@ namespace stingray
 				ucs <<= 8;
 				ucs |= (u8)*it++;
 			}
-			return ucs < 0x110000 ? ucs : InvalidCharacter;
+			return ucs < 0x110000 && (ucs < 0xd800 || ucs > 0xdfff) ? ucs : InvalidCharacter;
 		}
 
 		u32 Unpack_ISO_10646_utf32le(string_view::const_iterator& it, const string_view::const_iterator& end)
@@ -348,7 +348,7 @@ namespace stingray
 					return InvalidCharacter;
 				ucs |= ((u8)*it++ << (n * 8));
 			}
-			return ucs < 0x110000 ? ucs : InvalidCharacter;
+			return ucs < 0x110000 && (ucs < 0xd800 || ucs > 0xdfff) ? ucs : InvalidCharacter;
 		}
 
 		u32 Unpack_CP866(string_view::const_iterator& it, const string_view::const_iterator& end)
-- 
2.43.0


From 4fb05aacf3ec5c9752c0b516d18078dcdee5e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:59 +0000
Subject: [PATCH 47/92] fix: LocaleString::operator == called equal texts of
 different encodings different when their sizes differ

---
 stingraykit/locale/LocaleString.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/stingraykit/locale/LocaleString.cpp b/stingraykit/locale/LocaleString.cpp
index a6b7b92..81707e6 100644
--- a/stingraykit/locale/LocaleString.cpp
+++ b/stingraykit/locale/LocaleString.cpp
@@ -44,9 +44,6 @@ namespace stingray
 		if (TextEncoding == other.TextEncoding) //encoding matched
 			return Text == other.Text;
 
-		if (Text.size() != other.Text.size())
-			return false;
-
 		return Compare(other) == 0;
 	}
 
-- 
2.43.0


From ebb67792df43ecc0568ffc55691c4411cca283d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:04 +0000
Subject: [PATCH 48/92] fix: NtpTimestamp lost the fraction of a second

---
 stingraykit/time/NtpTimestamp.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/stingraykit/time/NtpTimestamp.cpp b/stingraykit/time/NtpTimestamp.cpp
index 62bbff4..5f88f1c 100644
--- a/stingraykit/time/NtpTimestamp.cpp
+++ b/stingraykit/time/NtpTimestamp.cpp
@@ -12,23 +12,26 @@ namespace stingray
 
 	Time NtpTimestamp::ToTime() const
 	{
-		u32 integerPart = _timestamp >> 32;
-		u64 seconds = integerPart - DifferenceBetweenUnixNtpTime;
-
-		u32 fractionPart = _timestamp - integerPart;
-		u64 milliSeconds = fractionPart / ((u64)1 << 32);
-
-		return Time(seconds * 1000 + milliSeconds);
+		const s64 seconds = (s64)(_timestamp >> 32) - DifferenceBetweenUnixNtpTime;
+		const u64 fractionPart = _timestamp & 0xffffffff;
+		const s64 milliseconds = (fractionPart * 1000 + 0x80000000) >> 32;
+		return Time(seconds * 1000 + milliseconds);
 	};
 
 
 	NtpTimestamp NtpTimestamp::FromTime(Time time)
 	{
-		u32 integerPart = time.GetSeconds() +  DifferenceBetweenUnixNtpTime;
-		u32 fractionPart = time.GetSeconds() * ((u64)1 << 32);
-
-		u64 timestamp = ((u64)integerPart << 32) | fractionPart;
-
+		s64 seconds = time.GetMilliseconds() / 1000;
+		s64 milliseconds = time.GetMilliseconds() % 1000;
+		if (milliseconds < 0)
+		{
+			milliseconds += 1000;
+			--seconds;
+		}
+
+		const u32 integerPart = seconds + DifferenceBetweenUnixNtpTime;
+		const u32 fractionPart = ((u64)milliseconds << 32) / 1000;
+		const u64 timestamp = ((u64)integerPart << 32) | fractionPart;
 		return NtpTimestamp(timestamp);
 	}
 
-- 
2.43.0


From 798dc535a84e26e1e35175f7b6d01e11265bdeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:04 +0000
Subject: [PATCH 49/92] fix: Time::GetMjd gave the following day for moments
 before 1970

---
 stingraykit/time/Time.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index 39eb941..a88fd35 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -461,7 +461,11 @@ namespace stingray
 
 
 	int Time::GetMjd() const
-	{ return DaysSinceMjd + _milliseconds / (1000 * SecondsPerDay); }
+	{
+		const s64 millisecondsPerDay = 1000 * SecondsPerDay;
+		const s64 days = _milliseconds / millisecondsPerDay;
+		return DaysSinceMjd + (_milliseconds % millisecondsPerDay < 0 ? days - 1 : days);
+	}
 
 
 	u32 Time::GetBcdTime(TimeKind kind) const
-- 
2.43.0


From dacce5a8353cf60ec1ec4ebc29cef00eb8d0473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:04 +0000
Subject: [PATCH 50/92] fix: the last second of 1969 could not be converted
 from BrokenDownTime

---
 stingraykit/time/posix/TimeEngine.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stingraykit/time/posix/TimeEngine.cpp b/stingraykit/time/posix/TimeEngine.cpp
index 940e8a5..e584da6 100644
--- a/stingraykit/time/posix/TimeEngine.cpp
+++ b/stingraykit/time/posix/TimeEngine.cpp
@@ -11,6 +11,7 @@
 #include <stingraykit/thread/atomic/AtomicInt.h>
 #include <stingraykit/SystemException.h>
 
+#include <errno.h>
 #include <time.h>
 #include <sys/time.h>
 
@@ -245,10 +246,10 @@ namespace posix
 		bdt.tm_year = bdTime.Year - 1900;
 #ifdef STINGRAYKIT_32_BIT_TIME_T
 		const s64 result = timegm64(&bdt);
-		STINGRAYKIT_CHECK(result != -1, SystemException(StringBuilder() % "timegm64(" % bdTime % ")"));
 #else
+		errno = 0;
 		const time_t result = timegm(&bdt);
-		STINGRAYKIT_CHECK(result != -1, SystemException(StringBuilder() % "timegm(" % bdTime % ")"));
+		STINGRAYKIT_CHECK(result != -1 || errno == 0, SystemException(StringBuilder() % "timegm(" % bdTime % ")"));
 #endif
 		return (s64)result * 1000 + bdTime.Milliseconds;
 	}
-- 
2.43.0


From 40767c7e6f626b538d850d095cba7a8099efb498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:04 +0000
Subject: [PATCH 51/92] fix: BrokenDownTime compared milliseconds before years

---
 stingraykit/time/BrokenDownTime.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/stingraykit/time/BrokenDownTime.cpp b/stingraykit/time/BrokenDownTime.cpp
index 782438c..f8f17bd 100644
--- a/stingraykit/time/BrokenDownTime.cpp
+++ b/stingraykit/time/BrokenDownTime.cpp
@@ -106,15 +106,15 @@ namespace stingray
 	int BrokenDownTime::Compare(const BrokenDownTime& other) const
 	{
 		return CompareMembersCmp(
-				&BrokenDownTime::Milliseconds,
-				&BrokenDownTime::Seconds,
-				&BrokenDownTime::Minutes,
+				&BrokenDownTime::Year,
+				&BrokenDownTime::Month,
+				&BrokenDownTime::MonthDay,
 				&BrokenDownTime::Hours,
+				&BrokenDownTime::Minutes,
+				&BrokenDownTime::Seconds,
+				&BrokenDownTime::Milliseconds,
 				&BrokenDownTime::WeekDay,
-				&BrokenDownTime::MonthDay,
-				&BrokenDownTime::Month,
-				&BrokenDownTime::YearDay,
-				&BrokenDownTime::Year)(*this, other);
+				&BrokenDownTime::YearDay)(*this, other);
 	}
 
 
-- 
2.43.0


From 64ccd0e7f2b0c1a106365c43e46a4431eb050fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:04 +0000
Subject: [PATCH 52/92] fix: TimeZone::FromString wrapped an offset that does
 not fit s16 to another offset

---
 stingraykit/time/Time.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index a88fd35..9ad953f 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -286,7 +286,8 @@ namespace stingray
 			minutes = strSize > baseIndex + 2 ? stingray::FromString<int>(str.substr(baseIndex + 2, 2)) : 0;
 		}
 
-		const int value = hours * MinutesPerHour + minutes;
+		const s64 value = (s64)hours * MinutesPerHour + minutes;
+		STINGRAYKIT_CHECK(value >= std::numeric_limits<s16>::min() && value <= std::numeric_limits<s16>::max(), FormatException(str));
 		return TimeZone(!sign || *sign == '+' ? value : -value);
 	}
 
-- 
2.43.0


From da7e53868c2e7ce9a20fc4e196540139c9e77db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:21 +0000
Subject: [PATCH 53/92] fix: ISO 8601 durations of more than 32767 hours or
 days wrapped around, were not parsed or overflowed when added to the base

---
 stingraykit/time/Time.cpp | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index 9ad953f..82eb8fc 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -642,11 +642,11 @@ namespace stingray
 		{
 			s16					Years;
 			s16					Months;
-			s16					Weeks;
-			s16					Days;
-			s16					Hours;
-			s16					Minutes;
-			s16					Seconds;
+			int					Weeks;
+			int					Days;
+			int					Hours;
+			int					Minutes;
+			int					Seconds;
 
 			ParseResult()
 				: Years(0), Months(0), Weeks(0), Days(0), Hours(0), Minutes(0), Seconds(0)
@@ -654,22 +654,14 @@ namespace stingray
 
 			TimeDuration ToTimeDuration(Time base, TimeKind kind) const
 			{
+				const TimeDuration duration = TimeDuration::FromDays(Weeks * DaysPerWeek + Days) + TimeDuration::FromHours(Hours) + TimeDuration::FromMinutes(Minutes) + TimeDuration::FromSeconds(Seconds);
 				if (Years == 0 && Months == 0)
-					return TimeDuration::FromDays(Weeks * DaysPerWeek + Days) + TimeDuration::FromHours(Hours) + TimeDuration::FromMinutes(Minutes) + TimeDuration::FromSeconds(Seconds);
-
-				const BrokenDownTime bdt = base.BreakDown(kind);
-				return Time::FromBrokenDownTime(
-						BrokenDownTime(
-								bdt.Milliseconds,
-								bdt.Seconds + Seconds,
-								bdt.Minutes + Minutes,
-								bdt.Hours + Hours,
-								bdt.WeekDay,
-								bdt.MonthDay + Weeks * DaysPerWeek + Days,
-								bdt.Month + Months,
-								bdt.YearDay,
-								bdt.Year + Years),
-						kind) - base;
+					return duration;
+
+				BrokenDownTime bdt = base.BreakDown(kind);
+				bdt.Month += Months;
+				bdt.Year += Years;
+				return Time::FromBrokenDownTime(bdt, kind) - base + duration;
 			}
 		};
 
@@ -777,8 +769,8 @@ namespace stingray
 
 		s16 Years = 0;
 		s16 Months = 0;
-		s16 Days = 0;
-		s16 Hours = 0;
+		s64 Days = 0;
+		s64 Hours = 0;
 		s16 Minutes = 0;
 		s16 Seconds = 0;
 
-- 
2.43.0


From 3e9dbdf90b34f28b382ebfab09a90432ff58c4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:47 +0000
Subject: [PATCH 54/92] fix: TimeDuration::ToString took escaped letters of the
 format for time units

---
 stingraykit/time/Time.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index 82eb8fc..3dbd570 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -115,7 +115,9 @@ namespace stingray
 		{
 			const char c = format[pos];
 
-			if (c == 'h')
+			if (c == '\\')
+				++pos;
+			else if (c == 'h')
 				hasHours = true;
 			else if (c == 'm')
 				hasMinutes = true;
-- 
2.43.0


From 7df4bc51af701cd15506ab18bec19f25b381c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:36 +0000
Subject: [PATCH 55/92] fix: TranslatedString::Deserialize changed every copy
 of the string

---
 stingraykit/string/TranslatedString.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stingraykit/string/TranslatedString.cpp b/stingraykit/string/TranslatedString.cpp
index a32b29a..f5e216d 100644
--- a/stingraykit/string/TranslatedString.cpp
+++ b/stingraykit/string/TranslatedString.cpp
@@ -57,7 +57,11 @@ namespace stingray
 
 
 	void TranslatedString::Deserialize(ObjectIStream& ar)
-	{ ar.Deserialize("translations", *_dictionary); }
+	{
+		const DictionaryImplPtr dictionary = make_shared_ptr<MapDictionary<LangCode, std::string>>();
+		ar.Deserialize("translations", *dictionary);
+		_dictionary = dictionary;
+	}
 
 
 	std::string TranslatedString::ToString() const
-- 
2.43.0


From 71b109b1afca27437bdc1b2ead79f922e2293388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:36 +0000
Subject: [PATCH 56/92] fix: LangCode(u32) corrupted codes with bytes above
 0x7f

---
 stingraykit/locale/LangCode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/locale/LangCode.cpp b/stingraykit/locale/LangCode.cpp
index 69e1e77..a9c5b41 100644
--- a/stingraykit/locale/LangCode.cpp
+++ b/stingraykit/locale/LangCode.cpp
@@ -36,7 +36,7 @@ namespace stingray
 			array<char, 3> r;
 			std::transform(c.begin(), c.end(), r.begin(), &DoToUpper);
 
-			return (u32)(r[0] << 16) + (r[1] << 8) + r[2];
+			return ((u32)(u8)r[0] << 16) + ((u32)(u8)r[1] << 8) + (u8)r[2];
 		}
 
 	}
-- 
2.43.0


From cb80ec1b86b264b0d67701528d581387c19bc963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:36 +0000
Subject: [PATCH 57/92] fix: TranslatedStringUtils.h could not be included into
 more than one source file

---
 stingraykit/string/TranslatedStringUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/string/TranslatedStringUtils.h b/stingraykit/string/TranslatedStringUtils.h
index 2c65823..edb6a58 100644
--- a/stingraykit/string/TranslatedStringUtils.h
+++ b/stingraykit/string/TranslatedStringUtils.h
@@ -20,7 +20,7 @@ namespace stingray
 	namespace Detail
 	{
 
-		std::string GetTranslatedValue(LangCode code, const TranslatedString& arg)
+		inline std::string GetTranslatedValue(LangCode code, const TranslatedString& arg)
 		{ return arg.SelectTranslation(code); }
 
 		template < typename T >
-- 
2.43.0


From b47717c9fbee183197864f1cc812b4628c36b660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:30 +0000
Subject: [PATCH 58/92] fix: BufferedStream read beyond its buffer after an
 unaligned seek and a short read

---
 stingraykit/io/BufferedStream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/BufferedStream.h b/stingraykit/io/BufferedStream.h
index 9c12500..33b3039 100644
--- a/stingraykit/io/BufferedStream.h
+++ b/stingraykit/io/BufferedStream.h
@@ -44,12 +44,12 @@ namespace stingray
 			u8* dst = data.data();
 			for (size_t toCopy = 0; total < dstSize && token; _inBufferOffset += toCopy, dst += toCopy, total += toCopy)
 			{
-				if (!_bufferSize || _inBufferOffset == _bufferSize)
+				if (_inBufferOffset >= _bufferSize)
 				{
 					if (_bufferSize)
 						SeekStream(Tell());
 					_bufferSize = _stream->Read(_buffer, token);
-					if (!_bufferSize || _inBufferOffset == _bufferSize)
+					if (_inBufferOffset >= _bufferSize)
 						break;
 				}
 				toCopy = std::min(dstSize - total, _bufferSize - _inBufferOffset);
-- 
2.43.0


From cbd56722389a960a62566a1e3c8e581b69486417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:30 +0000
Subject: [PATCH 59/92] fix: ChunkedMemoryByteStream could not write across the
 border of existing chunks

---
 stingraykit/io/ChunkedMemoryByteStream.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stingraykit/io/ChunkedMemoryByteStream.h b/stingraykit/io/ChunkedMemoryByteStream.h
index 5956060..33e76ee 100644
--- a/stingraykit/io/ChunkedMemoryByteStream.h
+++ b/stingraykit/io/ChunkedMemoryByteStream.h
@@ -58,11 +58,10 @@ namespace stingray
 		virtual u64 Write(ConstByteData data, const ICancellationToken& token = DummyCancellationToken())
 		{
 			STINGRAYKIT_CHECK(data.size() > 0, LogicException("writing empty data"));
-			NormalizePosition();
-
 			size_t passed = 0;
 			for (size_t curcount = 0; passed < data.size(); passed += curcount)
 			{
+				NormalizePosition();
 				if (_chunk == _container->end())
 				{
 					STINGRAYKIT_CHECK(_chunkOffset == 0, LogicException("_chunkOffset must be 0"));
@@ -126,7 +125,7 @@ namespace stingray
 
 		void NormalizePosition()
 		{
-			if (_chunk != _container->end() && _chunkOffset == _chunk->size())
+			while (_chunk != _container->end() && _chunkOffset == _chunk->size())
 			{
 				_chunk++;
 				_chunkOffset = 0;
-- 
2.43.0


From e64485f4f40a547bd0a55203aeff84ac694fef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:28 +0000
Subject: [PATCH 60/92] fix: CircularBufferBase::Clear left a wrapped buffer
 full

---
 stingraykit/io/CircularBufferBase.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/CircularBufferBase.h b/stingraykit/io/CircularBufferBase.h
index edb2264..9ac1b74 100644
--- a/stingraykit/io/CircularBufferBase.h
+++ b/stingraykit/io/CircularBufferBase.h
@@ -210,7 +210,8 @@ namespace stingray
 				s_logger.Warning() << "ro: " << _readOffset << ", wo: " << _writeOffset << ", ls: " << _lockedDataSize;
 			}
 
-			if (_readOffset + _lockedDataSize < GetStorageSize())
+			_dataIsContiguous = _readOffset + _lockedDataSize < GetStorageSize();
+			if (_dataIsContiguous)
 				_writeOffset = _readOffset + _lockedDataSize;
 			else
 				_writeOffset = _readOffset + _lockedDataSize - GetStorageSize();
-- 
2.43.0


From 70c17c8ffb8db57576c08e8e2b860d2c2823b159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 61/92] fix: PagedBuffer delivered data again when a page was
 popped during Read

---
 stingraykit/io/PagedBuffer.cpp | 8 ++++++--
 stingraykit/io/PagedBuffer.h   | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/PagedBuffer.cpp b/stingraykit/io/PagedBuffer.cpp
index 7fb1a68..35db073 100644
--- a/stingraykit/io/PagedBuffer.cpp
+++ b/stingraykit/io/PagedBuffer.cpp
@@ -90,7 +90,7 @@ namespace stingray
 
 		Log(LogLevel::Trace) << "Read: current offset: " << _currentOffset << " --> page: " << pageIndex << "/" << _pages.size() << ", offset: " << offset;
 
-		const u64 currentOffset = _currentOffset;
+		_repositioned = false;
 		size_t processed = 0;
 
 		{
@@ -109,7 +109,7 @@ namespace stingray
 			processed -= remainder;
 		}
 
-		if (_currentOffset == currentOffset)
+		if (!_repositioned)
 			_currentOffset += processed;
 	}
 
@@ -203,6 +203,7 @@ namespace stingray
 		auto newBeginIt = _pages.begin();
 		u64 newStartOffset = _startOffset + size;
 		u64 newCurrentOffset = std::max(newStartOffset, _currentOffset);
+		const bool skipsUnread = newCurrentOffset != _currentOffset;
 
 		while (newStartOffset >= _pageSize)
 		{
@@ -223,6 +224,7 @@ namespace stingray
 		_pages.erase(_pages.begin(), newBeginIt);
 		_startOffset = newStartOffset;
 		_currentOffset = newCurrentOffset;
+		_repositioned |= skipsUnread;
 	}
 
 
@@ -239,6 +241,7 @@ namespace stingray
 		Log(LogLevel::Debug) << "Seek: offset: " << offset << ", start offset: " << _startOffset << " --> current offset: " << newCurrentOffset;
 
 		_currentOffset = newCurrentOffset;
+		_repositioned = true;
 	}
 
 
@@ -250,6 +253,7 @@ namespace stingray
 			_currentOffset(0),
 			_tailSize(0),
 			_activeRead(false),
+			_repositioned(false),
 			_activeWrite(false)
 	{
 		STINGRAYKIT_CHECK(!name.empty(), ArgumentException("name"));
diff --git a/stingraykit/io/PagedBuffer.h b/stingraykit/io/PagedBuffer.h
index 9731e56..0df9ce8 100644
--- a/stingraykit/io/PagedBuffer.h
+++ b/stingraykit/io/PagedBuffer.h
@@ -49,6 +49,7 @@ namespace stingray
 
 		Mutex						_mutex;
 		bool						_activeRead;
+		bool						_repositioned;
 		ConditionVariable			_dataPushed;
 
 		Mutex						_writeMutex;
-- 
2.43.0


From 4c946e8015a370e7a5b5aba2a9cae6e480572288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 62/92] fix: BufferedStream took a short read after an
 unaligned seek for the end of the stream

---
 stingraykit/io/BufferedStream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/BufferedStream.h b/stingraykit/io/BufferedStream.h
index 33b3039..c3deca2 100644
--- a/stingraykit/io/BufferedStream.h
+++ b/stingraykit/io/BufferedStream.h
@@ -48,7 +48,8 @@ namespace stingray
 				{
 					if (_bufferSize)
 						SeekStream(Tell());
-					_bufferSize = _stream->Read(_buffer, token);
+					for (size_t readed = 1; readed != 0 && _inBufferOffset >= _bufferSize; _bufferSize += readed)
+						readed = static_cast<size_t>(_stream->Read(ByteData(_buffer, _bufferSize), token));
 					if (_inBufferOffset >= _bufferSize)
 						break;
 				}
-- 
2.43.0


From 719b8dca389e8aba2ed996a90dc2cf57e79b7ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:17 +0000
Subject: [PATCH 63/92] fix: releasing an empty piece of a circular buffer
 unlocked the piece that is being read

---
 stingraykit/io/CircularBufferBase.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/CircularBufferBase.h b/stingraykit/io/CircularBufferBase.h
index 9ac1b74..d0cfb86 100644
--- a/stingraykit/io/CircularBufferBase.h
+++ b/stingraykit/io/CircularBufferBase.h
@@ -106,7 +106,8 @@ namespace stingray
 				DoPop(size - tailSize);
 			}
 
-			_lockedDataSize = 0;
+			if (size != 0)
+				_lockedDataSize = 0;
 
 			if (_loggingEnabled)
 			{
-- 
2.43.0


From dc5fb51f13ba77bb3677d721911c8d7207d67837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:17 +0000
Subject: [PATCH 64/92] fix: an empty PacketBuffer could refuse a packet that
 fits it, forever

---
 stingraykit/io/PacketBuffer.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stingraykit/io/PacketBuffer.h b/stingraykit/io/PacketBuffer.h
index f91f97c..837618a 100644
--- a/stingraykit/io/PacketBuffer.h
+++ b/stingraykit/io/PacketBuffer.h
@@ -82,6 +82,12 @@ namespace stingray
 			MutexLock l1(_writeMutex); // we need this mutex because write can be called simultaneously from several threads
 			MutexLock l2(_bufferMutex);
 
+			if (_packetQueue.empty())
+			{
+				_buffer.Clear();
+				_paddingSize = 0;
+			}
+
 			BithreadCircularBuffer::Writer w = _buffer.Write();
 			size_t padding_size = (w.size() < data.size() && w.IsBufferEnd()) ? w.size() : 0;
 			if (_buffer.GetFreeSize() < padding_size + data.size())
-- 
2.43.0


From 0218c9c2db594576157b45efc89aa12c4304f5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 65/92] fix: pushing no bytes into MemoryCircularBuffer
 dereferenced the end of the data

---
 stingraykit/io/MemoryCircularBuffer.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/stingraykit/io/MemoryCircularBuffer.h b/stingraykit/io/MemoryCircularBuffer.h
index eda65f7..aa774c0 100644
--- a/stingraykit/io/MemoryCircularBuffer.h
+++ b/stingraykit/io/MemoryCircularBuffer.h
@@ -8,7 +8,6 @@
 // IN NO EVENT SHALL THE AUTHOR BE LIABLE FOR ANY SPECIAL, DIRECT, INDIRECT, OR CONSEQUENTIAL DAMAGES OR ANY DAMAGES WHATSOEVER RESULTING FROM LOSS OF USE, DATA OR PROFITS,
 // WHETHER IN AN ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
 
-#include <cstring>
 #include <vector>
 
 #include <stingraykit/io/CircularBufferBase.h>
@@ -32,8 +31,7 @@ namespace stingray
 
 		virtual void WriteToStorage(size_t offset, ConstByteData::iterator begin, ConstByteData::iterator end)
 		{
-			//std::copy(&(*begin), &(*begin) + std::distance(begin, end), _container.begin() + offset);
-			::memcpy(&_container[0] + offset, &(*begin), std::distance(begin, end));
+			std::copy(begin, end, _container.begin() + offset);
 		}
 
 		virtual ConstByteData ReadStorage(size_t offset, size_t size) const
-- 
2.43.0


From 02bacfe7a8d05eb7c44006569dc993db5026f618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 66/92] fix: PipeDataSource lost data that the consumer was not
 ready to accept

---
 stingraykit/io/PipeDataSource.cpp | 18 ++++++++++--------
 stingraykit/io/PipeDataSource.h   |  2 ++
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/stingraykit/io/PipeDataSource.cpp b/stingraykit/io/PipeDataSource.cpp
index e2a5f00..add0766 100644
--- a/stingraykit/io/PipeDataSource.cpp
+++ b/stingraykit/io/PipeDataSource.cpp
@@ -11,7 +11,7 @@ namespace stingray
 {
 
 	PipeDataSource::PipeDataSource(const IPipePtr& pipe, size_t bufferSize)
-		: _pipe(pipe), _buffer(bufferSize)
+		: _pipe(pipe), _buffer(bufferSize), _begin(0), _end(0)
 	{ }
 
 
@@ -19,15 +19,17 @@ namespace stingray
 	{
 		try
 		{
-			const size_t read = _pipe->Read(_buffer, token);
-			if (read == 0)
-				return;
+			if (_begin == _end)
+			{
+				const size_t read = _pipe->Read(_buffer, token);
+				if (read == 0)
+					return;
 
-			const size_t processed = consumer.Process(ConstByteData(_buffer, 0, read), token);
-			if (processed == 0)
-				return;
+				_begin = 0;
+				_end = read;
+			}
 
-			STINGRAYKIT_CHECK(processed == read, NotImplementedException());
+			_begin += consumer.Process(ConstByteData(_buffer, _begin, _end - _begin), token);
 		}
 		catch (const PipeClosedException&)
 		{
diff --git a/stingraykit/io/PipeDataSource.h b/stingraykit/io/PipeDataSource.h
index cd9295a..4a95ea5 100644
--- a/stingraykit/io/PipeDataSource.h
+++ b/stingraykit/io/PipeDataSource.h
@@ -22,6 +22,8 @@ namespace stingray
 		IPipePtr	_pipe;
 
 		ByteArray	_buffer;
+		size_t		_begin;
+		size_t		_end;
 
 	public:
 		explicit PipeDataSource(const IPipePtr& pipe, size_t bufferSize = DefaultBufferSize);
-- 
2.43.0


From 5ef67f5bd8ede9fca3c97fbc5c2e4fdaf58d8e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 67/92] fix: integers that do not fit their type were silently
 truncated on deserialization

---
 stingraykit/serialization/Serialization.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/stingraykit/serialization/Serialization.h b/stingraykit/serialization/Serialization.h
index d235437..72e3ba5 100644
--- a/stingraykit/serialization/Serialization.h
+++ b/stingraykit/serialization/Serialization.h
@@ -27,6 +27,8 @@
 #include <stingraykit/string/ToString.h>
 #include <stingraykit/variant.h>
 
+#include <limits>
+
 namespace stingray
 {
 
@@ -70,14 +72,25 @@ namespace stingray
 		struct TypeWriterImpl<Type, Stream, TypeTraits::SignedInt>
 		{
 			static void Serialize(Stream &ar, Type t)		{ ar.Write((s64)t);}
-			static void Deserialize(Stream &ar, Type &t)	{ t = ar.GetInt(); }
+			static void Deserialize(Stream &ar, Type &t)
+			{
+				const s64 v = ar.GetInt();
+				STINGRAYKIT_CHECK(v >= std::numeric_limits<Type>::min() && v <= std::numeric_limits<Type>::max(), SettingsValueException(StringBuilder() % "(integer " % v % " is out of range)"));
+				t = (Type)v;
+			}
 		};
 
 		template<typename Type, typename Stream>
 		struct TypeWriterImpl<Type, Stream, TypeTraits::UnsignedInt>
 		{
 			static void Serialize(Stream &ar, Type t)		{ ar.Write((s64)((u64)t));}
-			static void Deserialize(Stream &ar, Type &t)	{ s64 v = ar.GetInt(); t = (u64)v; }
+			static void Deserialize(Stream &ar, Type &t)
+			{
+				const s64 v = ar.GetInt();
+				// 64-bit values are stored as s64, so any of them represents a valid one
+				STINGRAYKIT_CHECK((u64)v <= std::numeric_limits<Type>::max(), SettingsValueException(StringBuilder() % "(integer " % v % " is out of range)"));
+				t = (Type)v;
+			}
 		};
 
 		template<typename Type, typename Stream>
-- 
2.43.0


From 31ed1da90f3b0ca3db954bedb62b3d03bd1b34b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 68/92] fix: a pair with missing elements was silently accepted
 on deserialization

---
 stingraykit/serialization/Serialization.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stingraykit/serialization/Serialization.h b/stingraykit/serialization/Serialization.h
index 72e3ba5..89df835 100644
--- a/stingraykit/serialization/Serialization.h
+++ b/stingraykit/serialization/Serialization.h
@@ -781,6 +781,8 @@ namespace stingray
 			typedef PairDeserializer<K, V> helper_type;
 			helper_type helper(pair, _context);
 			for_each(Bind(&helper_type::Deserialize, &helper, _collection, _1));
+			const unsigned count = (IsSame<K, EmptyType>::Value ? 0 : 1) + (IsSame<V, EmptyType>::Value ? 0 : 1); // empty type isn't serialized at all
+			STINGRAYKIT_CHECK(helper._index >= count, std::runtime_error("pair must contain two elements"));
 			return *this;
 		}
 
-- 
2.43.0


From 871de8beb1703baca8eef599d8edae0545af8b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 69/92] fix: unknown index of a variant was silently ignored on
 deserialization

---
 stingraykit/serialization/Serialization.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/serialization/Serialization.h b/stingraykit/serialization/Serialization.h
index 89df835..bc5dc2d 100644
--- a/stingraykit/serialization/Serialization.h
+++ b/stingraykit/serialization/Serialization.h
@@ -748,6 +748,7 @@ namespace stingray
 		{
 			size_t index = 0;
 			Deserialize("index", index);
+			STINGRAYKIT_CHECK(index < GetTypeListLength<Types_>::Value, IndexOutOfRangeException(index, GetTypeListLength<Types_>::Value));
 			For<GetTypeListLength<Types_>::Value, SerializationUtils::VariantObjectCreator<Types_>::template CreatorFunc>::Do(index, wrap_ref(v));
 			apply_visitor(SerializationUtils::VariantDeserializeVisitor<ObjectIStream>(*this), v);
 		}
-- 
2.43.0


From 6e60b902a7db3952195a4e69a693e30adda9a303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 70/92] fix: serialized BytesOwner could not be deserialized

---
 stingraykit/serialization/Serialization.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stingraykit/serialization/Serialization.h b/stingraykit/serialization/Serialization.h
index bc5dc2d..0731e0b 100644
--- a/stingraykit/serialization/Serialization.h
+++ b/stingraykit/serialization/Serialization.h
@@ -384,6 +384,10 @@ namespace stingray
 		ObjectOStream& serialize(ByteData data)
 		{ Write(data); return *this; }
 
+		template<typename T>
+		ObjectOStream& serialize(const BasicBytesOwner<T>& data)
+		{ return serialize(BasicByteData<const typename RemoveConst<T>::ValueT>(data)); }
+
 		ObjectOStream& serialize(const std::string & str)
 		{
 			Write(str);
-- 
2.43.0


From de2660af8f27fa412892c48295c01d8ed9615fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 71/92] fix: FloatString kept only six digits of a value

---
 stingraykit/serialization/FloatString.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stingraykit/serialization/FloatString.cpp b/stingraykit/serialization/FloatString.cpp
index f34b8f8..fa6ce47 100644
--- a/stingraykit/serialization/FloatString.cpp
+++ b/stingraykit/serialization/FloatString.cpp
@@ -10,6 +10,7 @@
 #include <stingraykit/SystemException.h>
 
 #include <stdio.h>
+#include <stdlib.h>
 
 namespace stingray
 {
@@ -20,6 +21,12 @@ namespace stingray
 		int r = snprintf(buf, sizeof(buf), "%lg", value);
 		STINGRAYKIT_CHECK(r > 0, "cannot serialize double value");
 
+		for (int precision = 15; precision <= 17 && value == value && strtod(buf, NULL) != value; ++precision)
+		{
+			r = snprintf(buf, sizeof(buf), "%.*lg", precision, value);
+			STINGRAYKIT_CHECK(r > 0, "cannot serialize double value");
+		}
+
 		_str = buf;
 	}
 
-- 
2.43.0


From 89c5b3b12030b3ebc7adb6d04bf15a037dc6fd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 72/92] fix: FloatString ignored garbage after a number

---
 stingraykit/serialization/FloatString.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/serialization/FloatString.cpp b/stingraykit/serialization/FloatString.cpp
index fa6ce47..2da7b5a 100644
--- a/stingraykit/serialization/FloatString.cpp
+++ b/stingraykit/serialization/FloatString.cpp
@@ -34,7 +34,8 @@ namespace stingray
 	double FloatString::ToDouble() const
 	{
 		double value;
-		STINGRAYKIT_CHECK(sscanf(_str.c_str(), "%lg", &value) == 1, SystemException("cannot parse double value " + _str));
+		char tail;
+		STINGRAYKIT_CHECK(sscanf(_str.c_str(), "%lg%c", &value, &tail) == 1, SystemException("cannot parse double value " + _str));
 		return value;
 	}
 
-- 
2.43.0


From ac8ce1eb37b6a94b459ac8a47bef7ebb10c6ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:10 +0000
Subject: [PATCH 73/92] fix: an optional member of a composite kept its old
 value when it was absent in the data

---
 stingraykit/serialization/Serializer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/serialization/Serializer.h b/stingraykit/serialization/Serializer.h
index 21b5ecd..93e2ab7 100644
--- a/stingraykit/serialization/Serializer.h
+++ b/stingraykit/serialization/Serializer.h
@@ -202,7 +202,8 @@ namespace stingray
 		optional<DeserializationHelper>		_helper;
 
 	public:
-		explicit Deserializer(optional<T>& object) : _helper(DeserializationHelper(object)) { }
+		explicit Deserializer(optional<T>& object) : _helper(DeserializationHelper(object))
+		{ object.reset(); }
 
 		optional<DeserializationHelper>& operator * () { return _helper; }
 	};
-- 
2.43.0


From cf5ac4789f7efb6d9da118e3e2422fa0d82ae91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 74/92] fix: ArithmeticCoder dropped pending bits at the end of
 data

---
 stingraykit/compression/ArithmeticCoder.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/stingraykit/compression/ArithmeticCoder.h b/stingraykit/compression/ArithmeticCoder.h
index fa192f0..102d8b9 100644
--- a/stingraykit/compression/ArithmeticCoder.h
+++ b/stingraykit/compression/ArithmeticCoder.h
@@ -57,12 +57,14 @@ namespace stingray
 		template <typename BitsConsumer_>
 		void EndOfData(const BitsConsumer_& consumer)
 		{
-			while (_low != _high)
-			{
-				consumer(FirstBit(_low));
-				_low = (_low << 1) & 0x7FFFFFFF;
-				_high = (_high << 1) & 0x7FFFFFFF;
-			}
+			// After the last shift the first bits of the limits are different, so it's enough to choose the quarter which is inside of them entirely
+			consumer(SecondBit(_low));
+			for (u32 i = 0; i < _underflowBits + 1; ++i)
+				consumer(!SecondBit(_low));
+
+			_low = 0;
+			_high = 0x7FFFFFFF;
+			_underflowBits = 0;
 		}
 
 	private:
-- 
2.43.0


From adfe1d09613bc7f0c2e5adde3affd5873da63385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 75/92] fix: PPM compressor could emit garbage at the end of
 data when its buffer was full

---
 stingraykit/compression/ppm/PpmCompressor.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stingraykit/compression/ppm/PpmCompressor.h b/stingraykit/compression/ppm/PpmCompressor.h
index 3116f3c..22fc94f 100644
--- a/stingraykit/compression/ppm/PpmCompressor.h
+++ b/stingraykit/compression/ppm/PpmCompressor.h
@@ -61,7 +61,9 @@ namespace stingray
 		template <typename DataConsumer_>
 		bool EndOfData(const DataConsumer_& consumer)
 		{
-			_writeOffset = BytesToBits(BitsToBytes(_writeOffset + 7));
+			while ((_writeOffset & 7) != 0)
+				AddBit(false);
+
 			while (GetDataSizeBits() != 0)
 				if (!DoConsume(consumer))
 					return false;
-- 
2.43.0


From 261bbc70ec2627ff7fc8394e9442955b1a1412a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 76/92] fix: PPM compressor encoded the end of data again when
 its consumer was not ready

---
 stingraykit/compression/ppm/PpmCompressor.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/stingraykit/compression/ppm/PpmCompressor.h b/stingraykit/compression/ppm/PpmCompressor.h
index 22fc94f..4712044 100644
--- a/stingraykit/compression/ppm/PpmCompressor.h
+++ b/stingraykit/compression/ppm/PpmCompressor.h
@@ -109,9 +109,10 @@ namespace stingray
 		std::deque<typename Impl::Symbol> _context;
 		BitsToBytesBuffer<BufferSize>     _bitBuffer;
 		ArithmeticCoder                   _coder;
+		bool                              _endOfData;
 
 	public:
-		PpmCompressor(const shared_ptr<const Model>& model, const IDataSourcePtr& source) : _model(model), _source(source)
+		PpmCompressor(const shared_ptr<const Model>& model, const IDataSourcePtr& source) : _model(model), _source(source), _endOfData(false)
 		{ }
 
 		virtual void Read(IDataConsumer& consumer, const ICancellationToken& token)
@@ -129,12 +130,17 @@ namespace stingray
 
 		void DoEndOfData(IDataConsumer& consumer, const ICancellationToken& token)
 		{
-			if (!ConsumeData(consumer, token))
-				return;
+			if (!_endOfData)
+			{
+				if (!ConsumeData(consumer, token))
+					return;
 
-			_model->Predict(_context, null, Bind(&PpmCompressor::DoEncode, this, _1, _2, _3));
+				_model->Predict(_context, null, Bind(&PpmCompressor::DoEncode, this, _1, _2, _3));
+
+				_coder.EndOfData(Bind(&PpmCompressor::AddBit, this, _1));
+				_endOfData = true;
+			}
 
-			_coder.EndOfData(Bind(&PpmCompressor::AddBit, this, _1));
 			if (!_bitBuffer.EndOfData(Bind(&IDataConsumer::Process, &consumer, _1, wrap_const_ref(token))))
 				return;
 			consumer.EndOfData(token);
-- 
2.43.0


From bc885316f8a3a5c0c26c81b11bc3dcd034689202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:31 +0000
Subject: [PATCH 77/92] fix: PPM model summed up probabilities with an overflow

---
 stingraykit/compression/ppm/PpmModel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/compression/ppm/PpmModel.h b/stingraykit/compression/ppm/PpmModel.h
index 96fcada..1777867 100644
--- a/stingraykit/compression/ppm/PpmModel.h
+++ b/stingraykit/compression/ppm/PpmModel.h
@@ -476,7 +476,7 @@ namespace stingray
 					f(scale - exit, scale, scale);
 					return false;
 				}
-				SymbolCount low = Sum(Transform(ToRange(first, it), Bind(&SymbolProbability::GetProbability, _1)));
+				SymbolCount low = Sum(Transform(Transform(ToRange(first, it), Bind(&SymbolProbability::GetProbability, _1)), ImplicitCaster<SymbolCount>()));
 				f(low, low + it->GetProbability(), scale);
 				return true;
 			}
-- 
2.43.0


From 9c5d30c1a707e282a5526be97b7505bfd394bf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 78/92] fix: PPM compressor overwrote its buffer when the coder
 held back many bits

---
 stingraykit/compression/ppm/PpmCompressor.h | 36 +++++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/stingraykit/compression/ppm/PpmCompressor.h b/stingraykit/compression/ppm/PpmCompressor.h
index 4712044..ac13ae6 100644
--- a/stingraykit/compression/ppm/PpmCompressor.h
+++ b/stingraykit/compression/ppm/PpmCompressor.h
@@ -13,8 +13,10 @@
 #include <stingraykit/compression/ICompressionEngine.h>
 #include <stingraykit/compression/ppm/PpmModel.h>
 
+#include <algorithm>
 #include <deque>
 #include <string.h>
+#include <vector>
 
 namespace stingray
 {
@@ -22,32 +24,34 @@ namespace stingray
 	template <size_t BufferSizeBytes>
 	class BitsToBytesBuffer
 	{
-		static const size_t BufferSizeBits = BufferSizeBytes * 8;
-
 	private:
-		array<u8, BufferSizeBytes>  _buffer;
+		std::vector<u8>        _buffer;
 		size_t                 _writeOffset;
 		size_t                 _readOffset;
 		bool                   _dataIsContiguous;
 
 	public:
 		BitsToBytesBuffer() :
+			_buffer(BufferSizeBytes, 0),
 			_writeOffset(0), _readOffset(0),
 			_dataIsContiguous(true)
-		{ std::fill(_buffer.begin(), _buffer.end(), 0); }
+		{ }
 
 		size_t GetDataSizeBits() const
-		{ return _dataIsContiguous ? (_writeOffset - _readOffset) : (BufferSizeBits - _readOffset + _writeOffset); }
+		{ return _dataIsContiguous ? (_writeOffset - _readOffset) : (GetBufferSizeBits() - _readOffset + _writeOffset); }
 
 		size_t GetFreeSizeBits() const
-		{ return BufferSizeBits - GetDataSizeBits(); }
+		{ return GetBufferSizeBits() - GetDataSizeBits(); }
 
 		void AddBit(bool bit)
 		{
+			if (GetFreeSizeBits() == 0) // There is no limit for the number of pending bits of the coder
+				Grow();
+
 			_buffer[BitsToBytes(_writeOffset)] |= (bit << (7 - (_writeOffset & 7)));
 			++_writeOffset;
 
-			if (_writeOffset == BufferSizeBits)
+			if (_writeOffset == GetBufferSizeBits())
 			{
 				_writeOffset = 0;
 				_dataIsContiguous = !_dataIsContiguous;
@@ -71,19 +75,31 @@ namespace stingray
 		}
 
 	private:
+		size_t GetBufferSizeBits() const
+		{ return BytesToBits(_buffer.size()); }
+
+		void Grow()
+		{
+			std::rotate(_buffer.begin(), _buffer.begin() + BitsToBytes(_readOffset), _buffer.end());
+			_writeOffset = GetBufferSizeBits();
+			_readOffset = 0;
+			_dataIsContiguous = true;
+			_buffer.resize(_buffer.size() * 2, 0);
+		}
+
 		static size_t BitsToBytes(size_t bits)  { return bits >> 3; }
 		static size_t BytesToBits(size_t bytes) { return bytes << 3; }
 
 		template <typename DataConsumer_>
 		bool DoConsume(const DataConsumer_& consumer)
 		{
-			size_t size = _dataIsContiguous ? (BitsToBytes(_writeOffset) - BitsToBytes(_readOffset)) : (BufferSizeBytes - BitsToBytes(_readOffset));
-			size_t consumedSize = consumer(ConstByteData(_buffer, BitsToBytes(_readOffset), size));
+			size_t size = _dataIsContiguous ? (BitsToBytes(_writeOffset) - BitsToBytes(_readOffset)) : (_buffer.size() - BitsToBytes(_readOffset));
+			size_t consumedSize = consumer(ConstByteData(_buffer.data() + BitsToBytes(_readOffset), size));
 
 			::memset(_buffer.data() + BitsToBytes(_readOffset), 0, consumedSize);
 
 			_readOffset += BytesToBits(consumedSize);
-			if (_readOffset == BufferSizeBits)
+			if (_readOffset == GetBufferSizeBits())
 			{
 				_readOffset = 0;
 				_dataIsContiguous = !_dataIsContiguous;
-- 
2.43.0


From 1e16aa0c3bab1d1621fbce85fb55ec64196e17c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 79/92] fix: ActionTransaction must run each rollback function
 exactly once even if one of them throws

A throwing rollback function left the sequence as it was, so the destructor
ran the functions after it again and never reached the ones before it.
---
 stingraykit/ActionTransaction.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/stingraykit/ActionTransaction.cpp b/stingraykit/ActionTransaction.cpp
index 8d2b484..c0c438d 100644
--- a/stingraykit/ActionTransaction.cpp
+++ b/stingraykit/ActionTransaction.cpp
@@ -20,7 +20,7 @@ namespace stingray
 
 	ActionTransaction::~ActionTransaction()
 	{
-		if (_active)
+		while (_active)
 			STINGRAYKIT_TRY("Couldn't rollback transaction!", Rollback());
 	}
 
@@ -47,8 +47,13 @@ namespace stingray
 	{
 		STINGRAYKIT_CHECK(_active, "Transaction is inactive!");
 
-		for (RollbackSequence::reverse_iterator it = _rollbackSequence.rbegin(); it != _rollbackSequence.rend(); ++it)
-			(*it)();
+		while (!_rollbackSequence.empty())
+		{
+			const RollbackFunc rollbackFunc(_rollbackSequence.back());
+			_rollbackSequence.pop_back();
+
+			rollbackFunc();
+		}
 
 		_active = false;
 	}
-- 
2.43.0


From 723475b6e00d6d3035bef024c196fa11a26ace4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:19 +0000
Subject: [PATCH 80/92] fix: JoiningCancellationToken refuses handlers when any
 of its tokens is cancelled

---
 stingraykit/thread/JoiningCancellationToken.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stingraykit/thread/JoiningCancellationToken.cpp b/stingraykit/thread/JoiningCancellationToken.cpp
index 3d8e3fa..7977972 100644
--- a/stingraykit/thread/JoiningCancellationToken.cpp
+++ b/stingraykit/thread/JoiningCancellationToken.cpp
@@ -50,7 +50,11 @@ namespace stingray
 		_firstRegistered = _firstRegistrator.TryRegisterCancellationHandler(handler);
 		_secondRegistered = _secondRegistrator.TryRegisterCancellationHandler(handler);
 
-		return _firstRegistered || _secondRegistered;
+		if (_firstRegistered && _secondRegistered)
+			return true;
+
+		// one of the tokens has already been cancelled, so nobody would notify about it
+		return !TryUnregisterCancellationHandler();
 	}
 
 
-- 
2.43.0


From b627d0be06b8b1efb2fbde4f383434f4c013be1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:19 +0000
Subject: [PATCH 81/92] fix: JoiningCancellationToken::Sleep tells complete
 sleeps from timed out tokens and spurious wakeups

---
 stingraykit/thread/JoiningCancellationToken.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/stingraykit/thread/JoiningCancellationToken.cpp b/stingraykit/thread/JoiningCancellationToken.cpp
index 7977972..c42fb64 100644
--- a/stingraykit/thread/JoiningCancellationToken.cpp
+++ b/stingraykit/thread/JoiningCancellationToken.cpp
@@ -27,10 +27,20 @@ namespace stingray
 		MutexLock l(_mutex);
 
 		if (duration)
-			return _cond.Wait(_mutex, TimedCancellationToken(*this, *duration)) == ConditionWaitResult::TimedOut;
+		{
+			const TimedCancellationToken token(*this, *duration);
+			while (true)
+				switch (_cond.Wait(_mutex, token))
+				{
+				case ConditionWaitResult::Broadcasted:	continue;
+				case ConditionWaitResult::Cancelled:	return false;
+				case ConditionWaitResult::TimedOut:		return !IsTimedOut();
+				}
+		}
 		else
 		{
-			_cond.Wait(_mutex, *this);
+			while (_cond.Wait(_mutex, *this) == ConditionWaitResult::Broadcasted)
+				;
 			return false;
 		}
 	}
-- 
2.43.0


From 4431a939cbfb5f6fbace8c90f733d84e3c0a73ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:19 +0000
Subject: [PATCH 82/92] fix: waiting with an already timed out token reports
 the timeout instead of a cancellation

---
 stingraykit/thread/posix/PosixConditionVariable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/thread/posix/PosixConditionVariable.cpp b/stingraykit/thread/posix/PosixConditionVariable.cpp
index 986419e..8c7a11f 100644
--- a/stingraykit/thread/posix/PosixConditionVariable.cpp
+++ b/stingraykit/thread/posix/PosixConditionVariable.cpp
@@ -103,7 +103,7 @@ namespace stingray
 	{
 		CancellationHolder holder(mutex, *this, token);
 		if (holder.IsCancelled())
-			return ConditionWaitResult::Cancelled;
+			return !token.IsCancelled() && token.IsTimedOut() ? ConditionWaitResult::TimedOut : ConditionWaitResult::Cancelled;
 
 		const optional<TimeDuration> timeout = token.GetTimeout();
 		if (!timeout)
-- 
2.43.0


From 6957ebeeb78d928ad94f3cefc5cacff17f67bb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:19 +0000
Subject: [PATCH 83/92] fix: CancellationToken::Sleep does not take a spurious
 wakeup for a cancellation

---
 stingraykit/thread/CancellationToken.cpp | 15 +++++++++++++--
 stingraykit/thread/CancellationToken.h   |  1 +
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/stingraykit/thread/CancellationToken.cpp b/stingraykit/thread/CancellationToken.cpp
index 48a8681..a82ac38 100644
--- a/stingraykit/thread/CancellationToken.cpp
+++ b/stingraykit/thread/CancellationToken.cpp
@@ -8,6 +8,7 @@
 #include <stingraykit/thread/CancellationToken.h>
 
 #include <stingraykit/function/bind.h>
+#include <stingraykit/time/RemainingTime.h>
 #include <stingraykit/FunctionToken.h>
 
 namespace stingray
@@ -16,6 +17,7 @@ namespace stingray
 	CancellationToken::Impl::Impl()
 		:	_cancelled(false),
 			_cancelDone(false),
+			_cancellations(0),
 			_cancelHandler(null)
 	{ }
 
@@ -35,10 +37,18 @@ namespace stingray
 		if (_cancelled)
 			return false;
 
+		const u32 cancellations = _cancellations;
 		if (duration)
-			return !_cond.TimedWait(_mutex, *duration);
+		{
+			const RemainingTime remaining(*duration);
+			while (_cancellations == cancellations)
+				if (!_cond.TimedWait(_mutex, remaining.Remaining()))
+					return true;
+			return false;
+		}
 
-		_cond.Wait(_mutex);
+		while (_cancellations == cancellations)
+			_cond.Wait(_mutex);
 		return false;
 	}
 
@@ -65,6 +75,7 @@ namespace stingray
 		{
 			MutexLock l(_mutex);
 			_cancelDone = true;
+			++_cancellations;
 			_cond.Broadcast();
 		}
 	}
diff --git a/stingraykit/thread/CancellationToken.h b/stingraykit/thread/CancellationToken.h
index bc0af38..b4005c8 100644
--- a/stingraykit/thread/CancellationToken.h
+++ b/stingraykit/thread/CancellationToken.h
@@ -30,6 +30,7 @@ namespace stingray
 			ConditionVariable				_cond;
 			atomic<bool>					_cancelled;
 			atomic<bool>					_cancelDone;
+			u32								_cancellations;
 			mutable ICancellationHandler*	_cancelHandler;
 
 		public:
-- 
2.43.0


From 2056565093d5ce07fbb0e0d5c2e1baec80130d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:37 +0000
Subject: [PATCH 84/92] fix: promise::swap() swaps the mark of a retrieved
 future, too

---
 stingraykit/future.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stingraykit/future.h b/stingraykit/future.h
index 608fc6d..4495e74 100644
--- a/stingraykit/future.h
+++ b/stingraykit/future.h
@@ -297,7 +297,10 @@ namespace stingray
 		{ _futureImpl->set_exception(MakeExceptionPtr(BrokenPromise())); }
 
 		void swap(promise& other)
-		{ _futureImpl.swap(other._futureImpl); }
+		{
+			_futureImpl.swap(other._futureImpl);
+			std::swap(_futureRetrieved, other._futureRetrieved);
+		}
 
 		future<ResultType> get_future()
 		{ STINGRAYKIT_CHECK(!_futureRetrieved, FutureAlreadyRetrieved()); _futureRetrieved = true; return future<ResultType>(_futureImpl); }
@@ -329,7 +332,10 @@ namespace stingray
 		{ _futureImpl->set_exception(MakeExceptionPtr(BrokenPromise())); }
 
 		void swap(promise& other)
-		{ _futureImpl.swap(other._futureImpl); }
+		{
+			_futureImpl.swap(other._futureImpl);
+			std::swap(_futureRetrieved, other._futureRetrieved);
+		}
 
 		future<ResultType> get_future()
 		{ STINGRAYKIT_CHECK(!_futureRetrieved, FutureAlreadyRetrieved()); _futureRetrieved = true; return future<ResultType>(_futureImpl); }
-- 
2.43.0


From cc7fe2a454655c8a43b94837f62e8fc473ef35d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:54 +0000
Subject: [PATCH 85/92] fix: Barrier::Wait let threads pass after a spurious
 wakeup

---
 stingraykit/thread/Barrier.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stingraykit/thread/Barrier.h b/stingraykit/thread/Barrier.h
index 04d04da..ac3650b 100644
--- a/stingraykit/thread/Barrier.h
+++ b/stingraykit/thread/Barrier.h
@@ -46,7 +46,10 @@ namespace stingray
 				_cv.Broadcast();
 			}
 			else
-				_cv.Wait(_mutex);
+			{
+				while (!_releasing)
+					_cv.Wait(_mutex);
+			}
 			if (--_currentCount == 0)
 			{
 				_releasing = false;
-- 
2.43.0


From 43dad7bf2621749af3a84f8adc0c16814d3f657c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:10 +0000
Subject: [PATCH 86/92] fix: keep timer task alive while it runs, even if it
 resets its own token

---
 stingraykit/timer/Timer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stingraykit/timer/Timer.cpp b/stingraykit/timer/Timer.cpp
index 84b2e3f..07f7952 100644
--- a/stingraykit/timer/Timer.cpp
+++ b/stingraykit/timer/Timer.cpp
@@ -293,13 +293,15 @@ namespace stingray
 			if (!guard)
 				return;
 
+			const TaskType task = ci->GetTask(); // releasing token from task itself destroys the one stored in callback info
+
 			if (_profileTimeout)
 			{
-				AsyncProfiler::Session profiler_session(ExecutorsProfiler::Instance().GetProfiler(), Bind(&Timer::GetProfilerMessage, this, wrap_const_ref(ci->GetTask())), *_profileTimeout, AsyncProfiler::NameGetterTag());
-				ci->GetTask()();
+				AsyncProfiler::Session profiler_session(ExecutorsProfiler::Instance().GetProfiler(), Bind(&Timer::GetProfilerMessage, this, wrap_const_ref(task)), *_profileTimeout, AsyncProfiler::NameGetterTag());
+				task();
 			}
 			else
-				ci->GetTask()();
+				task();
 		}
 		catch (const std::exception& ex)
 		{ _exceptionHandler(ex); }
-- 
2.43.0


From b3163850ef269964c278a2e6ab6823addae685fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:34 +0000
Subject: [PATCH 87/92] fix: ExecutionDeferrer::Cancel was lost while another
 cancellation was active

---
 stingraykit/timer/Timer.cpp | 20 ++++++++------------
 stingraykit/timer/Timer.h   |  5 +----
 2 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/stingraykit/timer/Timer.cpp b/stingraykit/timer/Timer.cpp
index 07f7952..a463695 100644
--- a/stingraykit/timer/Timer.cpp
+++ b/stingraykit/timer/Timer.cpp
@@ -313,24 +313,20 @@ namespace stingray
 
 	void ExecutionDeferrer::Cancel()
 	{
-		{
-			MutexLock l(_mutex);
-			if (_cancellationActive)
-				return;
-			_cancellationActive = true;
-		}
-
+		// tokens are reset without mutexes, because deferred function being waited for may call Cancel too
+		Token doDeferConnection;
 		{
 			MutexLock l(_doDeferConnectionMutex);
-			_doDeferConnection.Reset();
+			doDeferConnection = std::move(_doDeferConnection);
 		}
+		doDeferConnection.Reset();
+
+		Token connection;
 		{
 			MutexLock l(_connectionMutex);
-			_connection.Reset();
+			connection = std::move(_connection);
 		}
-
-		MutexLock l(_mutex);
-		_cancellationActive = false;
+		connection.Reset();
 	}
 
 
diff --git a/stingraykit/timer/Timer.h b/stingraykit/timer/Timer.h
index b708515..6e6cd6b 100644
--- a/stingraykit/timer/Timer.h
+++ b/stingraykit/timer/Timer.h
@@ -82,9 +82,6 @@ namespace stingray
 		Timer&			_timer;
 		TimeDuration	_timeout;
 
-		Mutex			_mutex;
-		bool			_cancellationActive;
-
 		Mutex			_connectionMutex;
 		Token			_connection;
 
@@ -93,7 +90,7 @@ namespace stingray
 
 	public:
 		explicit ExecutionDeferrer(Timer& timer, TimeDuration timeout = TimeDuration())
-			: _timer(timer), _timeout(timeout), _cancellationActive(false)
+			: _timer(timer), _timeout(timeout)
 		{ }
 
 		void Cancel();
-- 
2.43.0


From 831442caaa54f806aa54e9d26c1129c3d8aecba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:33 +0000
Subject: [PATCH 88/92] fix: threadless signal called handlers which had been
 disconnected during the same invocation

---
 stingraykit/signal/signals.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stingraykit/signal/signals.h b/stingraykit/signal/signals.h
index 63240b3..0810a33 100644
--- a/stingraykit/signal/signals.h
+++ b/stingraykit/signal/signals.h
@@ -88,21 +88,29 @@ namespace stingray
 					if (guard)
 						_functionStorage.ToFunction<Signature_>()(args...);
 				}
+
+				void Disconnect() { }
 			};
 
 			class ThreadlessStorage : public IntrusiveListNode<ThreadlessStorage>
 			{
 			private:
 				function_storage		_functionStorage;
+				shared_ptr<bool>		_connected; // is shared with copies made for invocation
 
 			public:
 				ThreadlessStorage(const function_storage& func, const FutureExecutionTester& tester)
-					: _functionStorage(func)
+					: _functionStorage(func), _connected(make_shared_ptr<bool>(true))
 				{ STINGRAYKIT_CHECK(tester.IsDummy(), "ThreadlessStorage can't be used with real tokens!"); }
 
 				template < typename Signature_, typename... Ts >
 				void Invoke(Ts... args) const
-				{ _functionStorage.ToFunction<Signature_>()(args...); }
+				{
+					if (*_connected)
+						_functionStorage.ToFunction<Signature_>()(args...);
+				}
+
+				void Disconnect() { *_connected = false; }
 			};
 
 			using FuncStorageType = typename If<IsThreadsafe, CancellableStorage, ThreadlessStorage>::ValueT;
@@ -174,6 +182,7 @@ namespace stingray
 			{
 				LockType l(DoGetSync());
 				_handlers.erase(handler);
+				handler.Disconnect();
 			}
 		};
 
-- 
2.43.0


From 1ee4eaba34584cd120d7538798d55dcc66bf7d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:05 +0000
Subject: [PATCH 89/92] fix: signal destroyed by its handler was used after
 that

---
 stingraykit/signal/signals.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/stingraykit/signal/signals.h b/stingraykit/signal/signals.h
index 0810a33..d48309b 100644
--- a/stingraykit/signal/signals.h
+++ b/stingraykit/signal/signals.h
@@ -363,8 +363,8 @@ namespace stingray
 
 		void SendCurrentState(const function<Signature>& slot) const
 		{
-			if (_impl)
-				_impl->SendCurrentState(function_storage(slot));
+			if (const ImplPtr impl = _impl)
+				impl->SendCurrentState(function_storage(slot));
 		}
 
 		Token connect(const function<Signature>& slot, bool sendCurrentState = true) const
@@ -376,7 +376,8 @@ namespace stingray
 			TaskLifeToken token(_impl->CreateSyncToken());
 			const FutureExecutionTester tester(token.GetExecutionTester());
 
-			return _impl->Connect(function_storage(slot), tester, std::move(token), sendCurrentState);
+			const ImplPtr impl(_impl); // handler getting current state may destroy signal
+			return impl->Connect(function_storage(slot), tester, std::move(token), sendCurrentState);
 		}
 
 		Token connect(const ITaskExecutorPtr& worker, const function<Signature>& slot, bool sendCurrentState = true) const
@@ -388,7 +389,8 @@ namespace stingray
 			TaskLifeToken token(_impl->CreateAsyncToken());
 			const FutureExecutionTester tester(token.GetExecutionTester());
 
-			return _impl->Connect(function_storage(function<Signature>(MakeAsyncFunction(worker, slot, tester))), null, std::move(token), sendCurrentState);
+			const ImplPtr impl(_impl); // handler getting current state may destroy signal
+			return impl->Connect(function_storage(function<Signature>(MakeAsyncFunction(worker, slot, tester))), null, std::move(token), sendCurrentState);
 		}
 
 		signal_connector<Signature> connector() const
@@ -405,8 +407,8 @@ namespace stingray
 
 		void operator () (Ts... args) const
 		{
-			if (_impl)
-				_impl->InvokeAll(args...);
+			if (const ImplPtr impl = _impl) // handlers may destroy signal
+				impl->InvokeAll(args...);
 		}
 	};
 
-- 
2.43.0


From eec750ff7ed9d51fa86cb2d3a8dd803e8fc0446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:42 +0000
Subject: [PATCH 90/92] fix: named logger lost its own log level when only its
 backtrace or highlight was configured

---
 stingraykit/log/Logger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/log/Logger.cpp b/stingraykit/log/Logger.cpp
index e4e9451..171d353 100644
--- a/stingraykit/log/Logger.cpp
+++ b/stingraykit/log/Logger.cpp
@@ -62,7 +62,8 @@ namespace stingray
 				const SettingsRegistry::const_iterator it = _settings.find(logger->GetName());
 				if (it != _settings.end())
 				{
-					logger->SetLogLevel(it->second.GetLogLevel());
+					if (it->second.GetLogLevel())
+						logger->SetLogLevel(it->second.GetLogLevel());
 					logger->EnableBacktrace(it->second.BacktraceEnabled());
 					logger->EnableHighlight(it->second.HighlightEnabled());
 				}
-- 
2.43.0


From bc1ead153781186781c00489de60728f0741a673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:44 +0000
Subject: [PATCH 91/92] fix: keep command handler alive while it unregisters
 itself

---
 stingraykit/CmdLine.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/CmdLine.h b/stingraykit/CmdLine.h
index 9c1e1f9..e6a5253 100644
--- a/stingraykit/CmdLine.h
+++ b/stingraykit/CmdLine.h
@@ -413,7 +413,8 @@ namespace stingray
 				if (!guard)
 					return false;
 
-				FunctorInvoker::Invoke(*_handler, args);
+				const HandlerFunc handler(*_handler); // handler may be released by itself
+				FunctorInvoker::Invoke(handler, args);
 				return true;
 			}
 
-- 
2.43.0


From 2d12ed0dfdf204813ac3362763bf71f6023da457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:44 +0000
Subject: [PATCH 92/92] fix: command completion doesn't drop results of other
 handlers

---
 stingraykit/CmdLine.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/stingraykit/CmdLine.h b/stingraykit/CmdLine.h
index e6a5253..a3beddc 100644
--- a/stingraykit/CmdLine.h
+++ b/stingraykit/CmdLine.h
@@ -421,12 +421,14 @@ namespace stingray
 			void Complete(const std::string& cmd, CompletionResults& results) const override
 			{
 				std::string local(cmd);
-				if (!ForIf<GetTypeListLength<typename StringsTuple::Types>::Value, StringsCompleter>::Do(_strings, wrap_ref(local), wrap_ref(results)))
-					return;
-
-				LocalExecutionGuard guard(_taskLife.GetExecutionTester());
-				if (guard)
-					ForIf<GetTypeListLength<ParamsList>::Value, ArgsCompleter>::Do(wrap_ref(local), wrap_ref(results), _customComplete);
+				CompletionResults localResults;
+				if (ForIf<GetTypeListLength<typename StringsTuple::Types>::Value, StringsCompleter>::Do(_strings, wrap_ref(local), wrap_ref(localResults)))
+				{
+					LocalExecutionGuard guard(_taskLife.GetExecutionTester());
+					if (guard)
+						ForIf<GetTypeListLength<ParamsList>::Value, ArgsCompleter>::Do(wrap_ref(local), wrap_ref(localResults), _customComplete);
+				}
+				results.insert(localResults.begin(), localResults.end());
 			}
 
 			void Release() override
-- 
2.43.0

