From 0fbadbe2881a5fa8ee37af2bfd99413b43bc357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 01/52] fix: norm2 allocated its result with the createArray
 arguments swapped (heap overflow, wrong count)

---
 src/functional/algebra/norm.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/algebra/norm.cxx b/src/functional/algebra/norm.cxx
index c15085b..7a86a17 100644
--- a/src/functional/algebra/norm.cxx
+++ b/src/functional/algebra/norm.cxx
@@ -42,7 +42,7 @@ Serie norm2(const Serie &s) {
         return s.clone();
     }
 
-    Array data = createArray(1, s.count());
+    Array data = createArray(s.count(), 0);
 
     for (uint32_t i = 0; i < s.count(); ++i) {
         Array v = s.value(i);
-- 
2.43.0


From b6111f5df31dd85d932d90d5c2fe2cdc297d880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 02/52] fix: norm and norm2 of a scalar Serie did not square
 the values (norm(-4) was NaN)

---
 src/functional/algebra/norm.cxx | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/functional/algebra/norm.cxx b/src/functional/algebra/norm.cxx
index 7a86a17..b184499 100644
--- a/src/functional/algebra/norm.cxx
+++ b/src/functional/algebra/norm.cxx
@@ -38,10 +38,6 @@ Serie norm2(const Serie &s) {
         return Serie();
     }
 
-    if (s.itemSize() == 1) {
-        return s.clone();
-    }
-
     Array data = createArray(s.count(), 0);
 
     for (uint32_t i = 0; i < s.count(); ++i) {
-- 
2.43.0


From cf69ebcb29c8fc3b7c03f8e3958fef18f3a7a5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 03/52] fix: Matrix kept a reference to the array it was built
 from (dangling in symSquaredMatrix, transpose and multMat)

---
 include/dataframe/view/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/view/Matrix.h b/include/dataframe/view/Matrix.h
index 9bbbc29..960daf7 100644
--- a/include/dataframe/view/Matrix.h
+++ b/include/dataframe/view/Matrix.h
@@ -45,7 +45,7 @@ namespace df
         Matrix multMat(const Matrix &m) const;
 
     private:
-        const Array &v_;
+        Array v_;
         uint m_;
     };
 
-- 
2.43.0


From 30b0ab326c9a6b53306a831ed28765d349d63a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 04/52] fix: copy assignment, clone and toSerie of a Serie
 dropped its dimension

---
 src/Serie.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 86c32f2..7cad1e2 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -59,11 +59,12 @@ void Serie::reCount(uint32_t c) {
 Serie &Serie::operator=(const Serie &s) {
     count_ = s.count_;
     itemSize_ = s.itemSize_;
+    dimension_ = s.dimension_;
     s_ = Array(s.s_.cbegin(), s.s_.cend());
     return *this;
 }
 
-Serie Serie::clone() const { return Serie(itemSize_, s_); }
+Serie Serie::clone() const { return Serie(itemSize_, s_, dimension_); }
 
 uint32_t Serie::size() const { return count_ * itemSize_; }
 
@@ -142,7 +143,7 @@ void print(const Array &v) {
 }
 
 Serie toSerie(uint32_t itemSize, const Array &a, uint dim) {
-    return Serie(itemSize, a, 3);
+    return Serie(itemSize, a, dim);
 }
 
 } // namespace df
-- 
2.43.0


From 9e57471aff734e968c9ca21d2ae458fc33c63349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 05/52] fix: Serie::scalar accepted an index one past the end

---
 src/Serie.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 7cad1e2..3e1f8df 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -96,7 +96,7 @@ Array Serie::value(uint32_t i) const {
 }
 
 double Serie::scalar(uint32_t i) const {
-    if (i > size()) {
+    if (i >= s_.size()) {
         throw std::invalid_argument("index out of bounds (" +
                                     std::to_string(i) +
                                     ">=" + std::to_string(size()));
-- 
2.43.0


From 37c3eb242b3364331ac9fb9f6e9130d1307f33c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 06/52] fix: Serie::value and Serie::get<Array> read past the
 end for an out-of-range index

---
 include/dataframe/inline/Serie.hxx | 5 +++++
 src/Serie.cxx                      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index 1b7a6ec..b074432 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -115,6 +115,11 @@ template <typename T>
 inline auto Serie::get(uint32_t i) const
     -> std::conditional_t<details::is_array_v<T>, Array, double> {
     if constexpr (details::is_array_v<T>) {
+        if (i >= count_) {
+            throw std::invalid_argument("index out of bounds (" +
+                                        std::to_string(i) +
+                                        ">=" + std::to_string(count_) + ")");
+        }
         if (itemSize_ == 1) {
             return Array{s_[i]};
         }
diff --git a/src/Serie.cxx b/src/Serie.cxx
index 3e1f8df..45c74f6 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -87,6 +87,11 @@ void Serie::dump() const {
 }
 
 Array Serie::value(uint32_t i) const {
+    if (i >= count_) {
+        throw std::invalid_argument("index out of bounds (" +
+                                    std::to_string(i) +
+                                    ">=" + std::to_string(count_) + ")");
+    }
     auto start = i * itemSize_;
     Array r(itemSize_);
     for (uint32_t j = 0; j < itemSize_; ++j) {
-- 
2.43.0


From 6cdda4a8423443708ceb4b4d1679f104e828f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 07/52] fix: building a Serie with itemSize 0 from values
 divided by zero

---
 src/Serie.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 45c74f6..e5a999a 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -38,14 +38,14 @@ Serie::Serie(const Serie &s)
 
 Serie::Serie(int itemSize, const Array &values, uint dimension)
     : itemSize_(itemSize), dimension_(dimension) {
-    count_ = values.size() / itemSize;
+    count_ = itemSize > 0 ? values.size() / itemSize : 0;
     s_ = values;
 }
 
 Serie::Serie(int itemSize, const std::initializer_list<double> &values,
              uint dimension)
     : itemSize_(itemSize), dimension_(dimension) {
-    count_ = values.size() / itemSize;
+    count_ = itemSize > 0 ? values.size() / itemSize : 0;
     s_ = Array(values);
 }
 
-- 
2.43.0


From fd7e43320b3b63d99b1ea5fcc5576f6acca5390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 08/52] fix: EigenValues and EigenVectors never resolved the
 names they list, and EigenVectors gave one component instead of the vector

---
 src/attributes/EigenValues.cxx  |  5 ++++-
 src/attributes/EigenVectors.cxx | 16 ++++++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/attributes/EigenValues.cxx b/src/attributes/EigenValues.cxx
index 57a88df..58e405c 100644
--- a/src/attributes/EigenValues.cxx
+++ b/src/attributes/EigenValues.cxx
@@ -53,9 +53,12 @@ namespace df
         if (itemSize != 1) {
             return Serie();
         }
+        if (name.empty()) {
+            return Serie();
+        }
         String newName = name.substr(0, name.size() - 1);
         const Serie& serie = dataframe[newName];
-        uint id = name[name.size() - 1];
+        uint id = name[name.size() - 1] - '0';
 
         if (serie.isValid() == false) {
             return Serie();
diff --git a/src/attributes/EigenVectors.cxx b/src/attributes/EigenVectors.cxx
index 6331f71..3616798 100644
--- a/src/attributes/EigenVectors.cxx
+++ b/src/attributes/EigenVectors.cxx
@@ -50,26 +50,29 @@ namespace df
 
     Serie EigenVectors::serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const
     {
-        if (itemSize != 3) {
+        if (itemSize != 2 && itemSize != 3) {
+            return Serie();
+        }
+        if (name.empty()) {
             return Serie();
         }
         String newName = name.substr(0, name.size() - 1);
         const Serie& serie = dataframe[newName];
-        uint id = name[name.size() - 1];
+        uint id = name[name.size() - 1] - '0';
 
         if (serie.isValid() == false) {
             return Serie();
         }
 
         if (serie.dimension() == 2) {
-            if (serie.itemSize() != 3) {
+            if (serie.itemSize() != 3 || itemSize != 2) {
                 return Serie();
             }
             if (id < 1 || id > 2) {
                 return Serie();
             }
         } else {
-            if (serie.itemSize() != 6) {
+            if (serie.itemSize() != 6 || itemSize != 3) {
                 return Serie();
             }
             if (id < 1 || id > 3) {
@@ -77,8 +80,9 @@ namespace df
             }
         }
 
-        return algebra::eigenVectors(serie).map( [id](const Array& item, uint32_t) {
-            return Array{item[id-1]};
+        return algebra::eigenVectors(serie).map( [id, itemSize](const Array& item, uint32_t) {
+            auto start = item.begin() + (id - 1) * itemSize;
+            return Array(start, start + itemSize);
         });
     }
 
-- 
2.43.0


From 5fd92ffaae398b52193b2a1e113754e65c12b94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 09/52] fix: Components resolved matrix components to the wrong
 entry, read past the end of shorter items, and never resolved numbered
 components

---
 src/attributes/Components.cxx | 149 +++++++++++-----------------------
 1 file changed, 46 insertions(+), 103 deletions(-)

diff --git a/src/attributes/Components.cxx b/src/attributes/Components.cxx
index 6ae4734..fdcf211 100644
--- a/src/attributes/Components.cxx
+++ b/src/attributes/Components.cxx
@@ -50,138 +50,81 @@ static Strings smatrix3Names{"xx", "xy", "xz", "yy", "yz", "zz"};
 static Strings matrix3Names{"xx", "xy", "xz", "yx", "yy",
                             "yz", "zx", "zy", "zz"};
 
-Strings Components::names(const Dataframe &dataframe, uint32_t itemSize,
-                          const Serie &serie, const String &name) const {
-    if (name == "positions" || name == "indices") {
-        return Strings();
-    }
-
-    // Passed name is, e.g., 'U' && itemSize=3 && dimension=3
-    String sname = nameOfSerie(dataframe, serie);
-    if (name == sname && serie.itemSize() == 1) {
-        return Strings();
-    }
-
-    if (itemSize > 1) {
-        return Strings();
-    }
-
+// What to append to the name of a Serie to get the names of its components, in
+// the order in which these are stored in an item.
+static Strings suffixes(const Serie &serie) {
     if (serie.dimension() == 2) {
         switch (serie.itemSize()) {
         case 2:
-            return _map(vector2Names,
-                        [name](const String &n) { return name + n; });
+            return vector2Names;
         case 3:
-            return _map(smatrix2Names, [name](const String &n) { return name + n; });
+            return smatrix2Names;
         case 4:
-            return _map(matrix2Names, [name](const String &n) { return name + n; }
-                       );
+            return matrix2Names;
         }
     } else {
-        Strings result;
-
         switch (serie.itemSize()) {
         case 3:
-            return _map(vector3Names,
-                       [name](const String &n) { return name + n; });
+            return vector3Names;
         case 6:
-            return _map(smatrix3Names,
-                       [name](const String &n) { return name + n; });
+            return smatrix3Names;
         case 9:
-            return _map(matrix3Names,
-                       [name](const String &n) { return name + n; });
+            return matrix3Names;
         }
     }
 
+    // Others: use integer
     Strings names;
-    for (uint32_t i = 0; i < itemSize; ++i) {
-        names.push_back(name + std::to_string(i));
+    for (uint32_t i = 0; i < serie.itemSize(); ++i) {
+        names.push_back(std::to_string(i));
     }
-
     return names;
 }
 
+Strings Components::names(const Dataframe &dataframe, uint32_t itemSize,
+                          const Serie &serie, const String &name) const {
+    if (name == "positions" || name == "indices") {
+        return Strings();
+    }
+
+    // Passed name is, e.g., 'U' && itemSize=3 && dimension=3
+    String sname = nameOfSerie(dataframe, serie);
+    if (name == sname && serie.itemSize() == 1) {
+        return Strings();
+    }
+
+    if (itemSize > 1) {
+        return Strings();
+    }
+
+    return _map(suffixes(serie), [name](const String &n) { return name + n; });
+}
+
 Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
                         const String &name) const {
     if (itemSize > 1) {
         return Serie();
     }
 
-    // vector2 / vector3
-    auto newName = name.substr(0, name.size() - 1);
-    auto serie = dataframe[newName];
-
-    if (serie.isValid()) {
-        if (serie.dimension() == 2) {
-            for (uint32_t i = 0; i < vector2Names.size(); ++i) {
-                if (name == newName + vector2Names[i]) {
-                    return serie.map([i](const Array &item, uint32_t index) {
-                        return Array{item[i]};
-                    });
-                }
-            }
-        } else {
-            for (uint32_t i = 0; i < vector3Names.size(); ++i) {
-                if (name == newName + vector3Names[i]) {
-                    return serie.map([i](const Array &item, uint32_t index) {
-                        return Array{item[i]};
-                    });
-                }
-            }
-        }
-    }
-
-    // (smatrix2 and matrix2) / (smatrix3 and matrix3)
-    newName = name.substr(0, name.size() - 2);
-    serie = dataframe[newName];
-    if (serie.isValid()) {
-        if (serie.dimension() == 2) {
-            for (uint32_t i = 0; i < smatrix2Names.size(); ++i) {
-                if (name == newName + smatrix2Names[i]) {
-                    return serie.map([i](const Array &item, uint32_t index) {
-                        return Array{item[i]};
-                    });
-                }
-            }
-            for (uint32_t i = 0; i < matrix2Names.size(); ++i) {
-                if (name == newName + matrix2Names[i]) {
-                    return serie.map([i](const Array &item, uint32_t index) {
-                        return Array{item[i]};
-                    });
-                }
-            }
-        } else {
-            for (uint32_t i = 0; i < smatrix3Names.size(); ++i) {
-                if (name == newName + smatrix3Names[i]) {
-                    return serie.map([i](const Array &item, uint32_t index) {
-                        return Array{item[i]};
-                    });
-                }
-            }
-            for (uint32_t i = 0; i < matrix3Names.size(); ++i) {
-                if (name == newName + matrix3Names[i]) {
-                    return serie.map([i](const Array &item, uint32_t index) {
-                        return Array{item[i]};
-                    });
-                }
-            }
+    // Name of the serie and name of the component, the shortest component name
+    // first
+    for (size_t length = 1; length <= name.size(); ++length) {
+        const Serie &serie = dataframe[name.substr(0, name.size() - length)];
+        if (!serie.isValid() || serie.itemSize() == 1) {
+            continue;
         }
-    }
-
-    // Others: use integer
-    newName = name.substr(0, name.size() - 1);
-    serie = dataframe[newName];
-    if (serie.isValid()) {
-        for (uint32_t i = 0; i < itemSize; ++i) {
-            if (name == newName + std::to_string(i)) {
-                return serie.map([i](const Array &item, uint32_t index) {
-                    return Array{item[i]};
-                });
-            }
+        const Strings ends = suffixes(serie);
+        const auto it = std::find(ends.begin(), ends.end(),
+                                  name.substr(name.size() - length));
+        if (it != ends.end()) {
+            const uint32_t i = it - ends.begin();
+            return serie.map([i](const Array &item, uint32_t) {
+                return Array{item[i]};
+            });
         }
     }
 
     return Serie();
 }
 
-} // namespace df
\ No newline at end of file
+} // namespace df
-- 
2.43.0


From 9bce8cb7ca1f923b718c533da59be487194ec858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 10/52] fix: Area, Normals and Valence listed their name when
 only one of positions and indices is present

---
 src/attributes/Areas.cxx   | 2 +-
 src/attributes/Normals.cxx | 2 +-
 src/attributes/Valence.cxx | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/attributes/Areas.cxx b/src/attributes/Areas.cxx
index 1a14cf6..50010e0 100644
--- a/src/attributes/Areas.cxx
+++ b/src/attributes/Areas.cxx
@@ -41,7 +41,7 @@ namespace df
         if (itemSize != 1) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
 
diff --git a/src/attributes/Normals.cxx b/src/attributes/Normals.cxx
index ac93d57..2e9ad69 100644
--- a/src/attributes/Normals.cxx
+++ b/src/attributes/Normals.cxx
@@ -39,7 +39,7 @@ namespace df
         if (itemSize != 3) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
 
diff --git a/src/attributes/Valence.cxx b/src/attributes/Valence.cxx
index b0ebfa4..2334007 100644
--- a/src/attributes/Valence.cxx
+++ b/src/attributes/Valence.cxx
@@ -38,7 +38,7 @@ namespace df
         if (itemSize != 1) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
 
-- 
2.43.0


From 743a2f0538773f1c4012402e6496150b70e36f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 11/52] fix: Coordinates read past the end of the names or of
 the positions when there are fewer than three

---
 src/attributes/Coordinates.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/attributes/Coordinates.cxx b/src/attributes/Coordinates.cxx
index c0f479d..2e6a8b9 100644
--- a/src/attributes/Coordinates.cxx
+++ b/src/attributes/Coordinates.cxx
@@ -38,7 +38,9 @@ namespace df
         if (itemSize != 1 || name != "positions") {
             return Strings();
         }
-        return names_;
+        // One name per coordinate of the positions
+        const size_t nb = std::min<size_t>(names_.size(), serie.itemSize());
+        return Strings(names_.begin(), names_.begin() + nb);
     }
 
     Serie Coordinates::serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const
@@ -46,7 +48,7 @@ namespace df
 
         if (itemSize == 1) {
             const Serie& serie = dataframe["positions"];
-            for (uint i=0; i<3; ++i) {
+            for (uint i=0; i<names_.size() && i<serie.itemSize(); ++i) {
                 if (name == names_[i]) {
                     return serie.map( [i](const Array& item, uint32_t) {
                         return Array{item[i]};
-- 
2.43.0


From 36f114ffa819a0c9525776f39abc28a228354a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 12/52] fix: UserDefinedDecomposer kept a reference to a
 temporary callback

---
 include/dataframe/attributes/UserDefinedDecomposer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dataframe/attributes/UserDefinedDecomposer.h b/include/dataframe/attributes/UserDefinedDecomposer.h
index dc597dc..82b2bb9 100644
--- a/include/dataframe/attributes/UserDefinedDecomposer.h
+++ b/include/dataframe/attributes/UserDefinedDecomposer.h
@@ -41,13 +41,13 @@ namespace df
     private:
         uint itemSize_{0};
         String name_;
-        F &&cb_;
+        F cb_;
     };
 
     // ------------------------------------------------------------
 
     template <typename F>
-    inline UserDefinedDecomposer<F>::UserDefinedDecomposer(uint itemSize, const String &name, F &&cb) : itemSize_(itemSize), name_(name), cb_(std::move(cb))
+    inline UserDefinedDecomposer<F>::UserDefinedDecomposer(uint itemSize, const String &name, F &&cb) : itemSize_(itemSize), name_(name), cb_(std::forward<F>(cb))
     {
     }
 
-- 
2.43.0


From dd7da29c50b0198ff6ef604147fd4d390f64156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 13/52] fix: Manager deleted decomposers through a non-virtual
 destructor, and clear() leaked them

---
 include/dataframe/attributes/Decomposer.h | 1 +
 src/attributes/Manager.cxx                | 9 +++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dataframe/attributes/Decomposer.h b/include/dataframe/attributes/Decomposer.h
index 58956bb..5ac707b 100644
--- a/include/dataframe/attributes/Decomposer.h
+++ b/include/dataframe/attributes/Decomposer.h
@@ -36,6 +36,7 @@ namespace df
     class Decomposer
     {
     public:
+        virtual ~Decomposer() = default;
         virtual Strings names(const Dataframe &dataframe, uint32_t itemSize, const Serie &serie, const String &name) const ;
         virtual Serie serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const ;
     };
diff --git a/src/attributes/Manager.cxx b/src/attributes/Manager.cxx
index 6786242..bfef57a 100644
--- a/src/attributes/Manager.cxx
+++ b/src/attributes/Manager.cxx
@@ -40,10 +40,7 @@ namespace df
     }
 
     Manager::~Manager() {
-        for (auto d : ds_) {
-            delete d;
-        }
-        ds_.clear();
+        clear();
     }
 
     void Manager::add(Decomposer *decomposer)
@@ -53,6 +50,10 @@ namespace df
 
     void Manager::clear()
     {
+        for (auto d : ds_)
+        {
+            delete d;
+        }
         ds_.clear();
     }
 
-- 
2.43.0


From c32d3788a6566ba37d17509548a7ce4d46bf1a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 14/52] fix: map over several empty Series read their first
 item

---
 include/dataframe/functional/map.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/dataframe/functional/map.h b/include/dataframe/functional/map.h
index e1e90a5..00a0dbc 100644
--- a/include/dataframe/functional/map.h
+++ b/include/dataframe/functional/map.h
@@ -120,6 +120,13 @@ auto map(F &&callback, const Args &...args) {
 
         auto counts = utils::countAndCheck(args...);
 
+        if (counts[0] == 0) {
+            // No item to call the callback with
+            using ResultType = std::decay_t<decltype(callback(
+                args.template get<Array>(0)..., uint32_t(0)))>;
+            return std::is_arithmetic_v<ResultType> ? Serie(1, 0) : Serie(0, 0);
+        }
+
         // Get first result to determine output Serie properties
         auto first_result = callback(args.template get<Array>(0)..., 0);
         Serie result;
-- 
2.43.0


From 202a89f4461f623cc640ad6bf398874929586bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 15/52] fix: sort ignored the comparator for a scalar Serie

---
 include/dataframe/functional/utils/sort.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/dataframe/functional/utils/sort.h b/include/dataframe/functional/utils/sort.h
index 2fb2d1d..ce150b0 100644
--- a/include/dataframe/functional/utils/sort.h
+++ b/include/dataframe/functional/utils/sort.h
@@ -24,6 +24,8 @@
 #pragma once
 #include <dataframe/Serie.h>
 #include <algorithm>
+#include <functional>
+#include <type_traits>
 
 namespace df {
 namespace utils {
@@ -40,7 +42,13 @@ Serie sort(const Serie &serie, Comparator &&comp) {
             values.push_back(serie.template get<double>(i));
         }
 
-        std::sort(values.begin(), values.end());
+        if constexpr (std::is_invocable_v<Comparator, double, double>) {
+            std::sort(values.begin(), values.end(), comp);
+        } else {
+            std::sort(values.begin(), values.end(), [&comp](double a, double b) {
+                return comp(Array{a}, Array{b});
+            });
+        }
         return Serie(1, values);
     } else {
         std::vector<Array> values;
-- 
2.43.0


From fa3c5103efaa70b625ec8bb9e09aef390ec70dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 16/52] fix: quantile of an empty Serie, or for q = NaN, read
 outside of the sorted values

---
 src/functional/stats/quantile.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/functional/stats/quantile.cxx b/src/functional/stats/quantile.cxx
index fb39c65..139c504 100644
--- a/src/functional/stats/quantile.cxx
+++ b/src/functional/stats/quantile.cxx
@@ -39,9 +39,12 @@ double quantile(const Serie &s, double q) {
     if (s.itemSize() != 1) {
         throw std::invalid_argument("quantile algorithm: itemSize must be 1");
     }
-    if (q < 0 || q > 1) {
+    if (!(q >= 0 && q <= 1)) {
         throw std::invalid_argument("quantile must be in [0,1]");
     }
+    if (s.count() == 0) {
+        throw std::invalid_argument("quantile algorithm: the serie is empty");
+    }
 
     auto newSerie = df::utils::sort(s);
     const Array &sorted = newSerie.asArray();
-- 
2.43.0


From c1d1d958b4a95c75301344614dddc16b1b6c9633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 17/52] fix: bins counted values below the start in the last
 bin, and read an empty Serie out of bounds

---
 src/functional/stats/bins.cxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/functional/stats/bins.cxx b/src/functional/stats/bins.cxx
index 26c9674..c8a3064 100644
--- a/src/functional/stats/bins.cxx
+++ b/src/functional/stats/bins.cxx
@@ -30,6 +30,12 @@ namespace df {
 namespace stats {
 
 Serie bins(const Serie &serie, uint nb) {
+    if (serie.itemSize() != 1) {
+        throw std::invalid_argument("bins: Serie must have itemSize=1");
+    }
+    if (serie.count() == 0) {
+        return bins(serie, nb, 0, 0);
+    }
     auto [min, max] = math::minMax(serie);
     return bins(serie, nb, min[0], max[0]);
 }
@@ -48,16 +54,16 @@ Serie bins(const Serie &serie, uint nb, double start, double stop) {
     // binning
     Array b = createArray(nb, 0);
     serie.forEach([&](double v, uint32_t) {
-        uint32_t i = std::trunc((v - start) / size);
+        double i = v == start ? 0 : std::floor((v - start) / size);
         if (i >= nb) {
             i = nb - 1;
         }
-        if (i < 0 || i >= nb) {
+        if (!(i >= 0)) {
             throw std::invalid_argument(
                 "bins: index for bin (" + std::to_string(i) +
                 ") out of bounds (0, " + std::to_string(nb) + ")");
         }
-        b[i]++;
+        b[uint32_t(i)]++;
     });
 
     return Serie(1, b);
-- 
2.43.0


From 75c0083382f5b84041f77e755048f0b2de38550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 18/52] fix: normalize read the minimum and maximum of an empty
 Serie

---
 src/functional/math/normalize.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functional/math/normalize.cxx b/src/functional/math/normalize.cxx
index ab5ee9f..ca37502 100644
--- a/src/functional/math/normalize.cxx
+++ b/src/functional/math/normalize.cxx
@@ -37,6 +37,10 @@ Serie normalize(const Serie &serie) {
         throw std::invalid_argument("Serie is invalid");
     }
 
+    if (serie.count() == 0) {
+        return serie.clone();
+    }
+
     if (serie.itemSize() == 1) {
         // auto minmax = df::minMax(serie);
         auto [min, max] = minMax(serie);
-- 
2.43.0


From eb8b2263e4df7e402a77c2faff566a26aa13a30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 19/52] fix: Vector::norm accumulated in an int

---
 src/view/Vector.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/Vector.cxx b/src/view/Vector.cxx
index baa50ac..dbdeb05 100644
--- a/src/view/Vector.cxx
+++ b/src/view/Vector.cxx
@@ -68,7 +68,7 @@ namespace df
     {
         auto op = [](double acc, double v)
         { return acc + v * v; };
-        return std::sqrt(std::accumulate(v_.begin(), v_.end(), 0, op));
+        return std::sqrt(std::accumulate(v_.begin(), v_.end(), 0.0, op));
     }
 
     Vector &Vector::mult(double s)
-- 
2.43.0


From 4dfd1d452b09753998893d4721a91d7b4c83641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 20/52] fix: wrong yz entry in the inverse of a full 3x3 matrix

---
 src/functional/algebra/inv.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/algebra/inv.cxx b/src/functional/algebra/inv.cxx
index 23ef040..4151b6e 100644
--- a/src/functional/algebra/inv.cxx
+++ b/src/functional/algebra/inv.cxx
@@ -87,7 +87,7 @@ Serie inv(const Serie &serie) {
         inv[2] = (xy * yz - xz * yy) * invDet; // xz
         inv[3] = (yz * zx - yx * zz) * invDet; // yx
         inv[4] = (xx * zz - xz * zx) * invDet; // yy
-        inv[5] = (zx * xy - xx * zy) * invDet; // yz
+        inv[5] = (xz * yx - xx * yz) * invDet; // yz
         inv[6] = (yx * zy - yy * zx) * invDet; // zx
         inv[7] = (xy * zx - xx * zy) * invDet; // zy
         inv[8] = (xx * yy - xy * yx) * invDet; // zz
-- 
2.43.0


From 11aeb3f302a4e6f0e0453b104e7d2971d17a9296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 21/52] fix: memoize took Series with the same values but
 another layout for the same input, and broke on NaN

---
 include/dataframe/functional/utils/memoize.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/dataframe/functional/utils/memoize.h b/include/dataframe/functional/utils/memoize.h
index d514261..3c95059 100644
--- a/include/dataframe/functional/utils/memoize.h
+++ b/include/dataframe/functional/utils/memoize.h
@@ -21,6 +21,8 @@
  *
  */
 #pragma once
+#include <bit>
+#include <cstdint>
 #include <dataframe/Serie.h>
 #include <map>
 #include <utility>
@@ -48,18 +50,16 @@ template <typename F> class Memoized {
 
   private:
     F func;
-    mutable std::map<std::vector<double>, Serie> cache;
+    mutable std::map<std::vector<uint64_t>, Serie> cache;
 
     // Helper to create cache key from Series
-    std::vector<double> make_key(const Serie &s) const {
-        std::vector<double> key;
-        for (uint32_t i = 0; i < s.count(); ++i) {
-            if (s.itemSize() == 1) {
-                key.push_back(s.template get<double>(i));
-            } else {
-                const auto &v = s.template get<Array>(i);
-                key.insert(key.end(), v.begin(), v.end());
-            }
+    // The layout is part of the key, and the values are compared by their bits
+    // (NaN is not ordered, and 0 and -0 are different inputs).
+    std::vector<uint64_t> make_key(const Serie &s) const {
+        std::vector<uint64_t> key{s.itemSize(), s.count(), s.dimension()};
+        key.reserve(key.size() + s.asArray().size());
+        for (double v : s.asArray()) {
+            key.push_back(std::bit_cast<uint64_t>(v));
         }
         return key;
     }
-- 
2.43.0


From a7fcb1f449df5e3730bcbe477243a8d05c797dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 22/52] fix: partition_n of one Serie in 0 parts divided by
 zero

---
 include/dataframe/functional/utils/partition_n.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dataframe/functional/utils/partition_n.h b/include/dataframe/functional/utils/partition_n.h
index 57ceb1b..be50e82 100644
--- a/include/dataframe/functional/utils/partition_n.h
+++ b/include/dataframe/functional/utils/partition_n.h
@@ -42,6 +42,10 @@ namespace utils {
  * ```
  */
 Series partition_n(uint32_t n, const Serie &serie) {
+    if (n == 0) {
+        throw std::invalid_argument("n must be > 0");
+    }
+
     uint32_t total = serie.count();
     uint32_t base_size = total / n;
     uint32_t remainder = total % n;
-- 
2.43.0


From 16cf8af89704962522f5e01f4aed444cf91131e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 23/52] fix: parallel_execute.h used concat without including
 it

---
 include/dataframe/functional/utils/parallel_execute.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dataframe/functional/utils/parallel_execute.h b/include/dataframe/functional/utils/parallel_execute.h
index 79bad06..9721bd5 100644
--- a/include/dataframe/functional/utils/parallel_execute.h
+++ b/include/dataframe/functional/utils/parallel_execute.h
@@ -23,6 +23,7 @@
 
 #pragma once
 #include <dataframe/Serie.h>
+#include <dataframe/functional/utils/concat.h>
 #include <dataframe/functional/utils/partition_n.h>
 #include <dataframe/utils.h>
 #include <future>
-- 
2.43.0


From 3308b5762d356cceac590678684a08c89d9a19cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 24/52] fix: parallel_execute threw for an empty Serie when
 given more than one core

---
 include/dataframe/functional/utils/parallel_execute.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/functional/utils/parallel_execute.h b/include/dataframe/functional/utils/parallel_execute.h
index 9721bd5..ba373cf 100644
--- a/include/dataframe/functional/utils/parallel_execute.h
+++ b/include/dataframe/functional/utils/parallel_execute.h
@@ -70,7 +70,7 @@ Serie parallel_execute(Functor &&fct, const Serie &serie, uint nbCores) {
         throw std::invalid_argument("NnCores must be >= 1");
     }
 
-    if (nbCores == 1) {
+    if (nbCores == 1 || serie.count() == 0) {
         return fct(serie);
     }
 
-- 
2.43.0


From 487e6cf5d2a68980d257907cb39c73b7fc8a956f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 25/52] fix: geo::areas called div with its arguments swapped
 and always threw

---
 src/functional/geo/areas.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/geo/areas.cxx b/src/functional/geo/areas.cxx
index 9608050..d4a5c7b 100644
--- a/src/functional/geo/areas.cxx
+++ b/src/functional/geo/areas.cxx
@@ -33,7 +33,7 @@ Serie areas(const Serie &positions, const Serie &indices) {
     if (!positions.isValid() || !indices.isValid()) {
         return Serie();
     }
-    return math::div(algebra::norm(geo::normals(positions, indices)), 2);
+    return math::div(2, algebra::norm(geo::normals(positions, indices)));
 }
 
 } // namespace geo
-- 
2.43.0


From 8cafac9248f1f464c4ed76eb8865a4c19d2d6fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 26/52] fix: dot and cross read out of bounds when the Series
 have different counts or item sizes

---
 src/functional/algebra/cross.cxx | 4 ++++
 src/functional/algebra/dot.cxx   | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/functional/algebra/cross.cxx b/src/functional/algebra/cross.cxx
index 366245c..dfe3b39 100644
--- a/src/functional/algebra/cross.cxx
+++ b/src/functional/algebra/cross.cxx
@@ -40,6 +40,10 @@ Serie cross(const Serie &a, const Serie &b) {
         throw std::invalid_argument("cross: serie b must have itemSize=3");
     }
 
+    if (a.count() != b.count()) {
+        throw std::invalid_argument("cross: series must have the same count");
+    }
+
     return a.map([&](const Array &A, uint32_t i) {
         auto B = b.value(i);
         return Array{A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2],
diff --git a/src/functional/algebra/dot.cxx b/src/functional/algebra/dot.cxx
index d65a829..369f7e2 100644
--- a/src/functional/algebra/dot.cxx
+++ b/src/functional/algebra/dot.cxx
@@ -27,6 +27,11 @@ namespace df {
 namespace algebra {
 
 Serie dot(const Serie &a, const Serie &b) {
+    if (a.count() != b.count() || a.itemSize() != b.itemSize()) {
+        throw std::invalid_argument(
+            "dot: Series must have same itemSize and count");
+    }
+
     uint32_t itemSize = a.itemSize();
     return a.map([itemSize, b](const Array &arr, uint32_t i) { // ieme item
         Array r = createArray(1, 0);
@@ -39,7 +44,7 @@ Serie dot(const Serie &a, const Serie &b) {
 }
 
 Serie dot(const Serie &a, const Array &b) {
-    if (a.value(0).size() != b.size()) {
+    if (a.itemSize() != b.size()) {
         return Serie();
     }
 
-- 
2.43.0


From 21d92b2dbdb08adc12556364e32807b0b105c577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 27/52] fix: operator<< of Array, Strings and Serie wrote to
 cout or cerr instead of the given stream

---
 include/dataframe/inline/Serie.hxx | 18 +++++++++---------
 include/dataframe/types.h          | 14 ++++++--------
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index b074432..fb5000f 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -67,19 +67,19 @@ inline const Array &Serie::asArray() const { return s_; }
 inline Array &Serie::asArray() { return s_; }
 
 inline std::ostream &operator<<(std::ostream &o, const Serie &s) {
-    std::cerr << "Serie:" << std::endl;
-    std::cerr << "  itemSize : " << s.itemSize() << std::endl;
-    std::cerr << "  count    : " << s.count() << std::endl;
-    std::cerr << "  dimension: " << s.dimension() << std::endl;
-    if (s.count() > 0) {
-        std::cerr << "  values   : [";
+    o << "Serie:" << std::endl;
+    o << "  itemSize : " << s.itemSize() << std::endl;
+    o << "  count    : " << s.count() << std::endl;
+    o << "  dimension: " << s.dimension() << std::endl;
+    if (s.asArray().size() > 0) {
+        o << "  values   : [";
         Array v = s.asArray();
         for (uint32_t i = 0; i < v.size() - 1; ++i) {
-            std::cerr << v[i] << ", ";
+            o << v[i] << ", ";
         }
-        std::cerr << v[v.size() - 1] << "]";
+        o << v[v.size() - 1] << "]";
     } else {
-        std::cerr << "  values   : []";
+        o << "  values   : []";
     }
     return o;
 }
diff --git a/include/dataframe/types.h b/include/dataframe/types.h
index 5899a1f..a8cc7f7 100644
--- a/include/dataframe/types.h
+++ b/include/dataframe/types.h
@@ -51,24 +51,22 @@ inline Array createArray(uint32_t size, double initValue) {
 
 inline std::ostream &operator<<(std::ostream &o, const Array &a) {
 
-    std::cout << "[";
+    o << "[";
     if (a.size() > 0) {
         for (size_t j = 0; j < a.size() - 1; ++j) {
-            std::cout << a[j] << ", ";
+            o << a[j] << ", ";
         }
-        std::cout << a.back() << "]";
-    }
-    else {
-        std::cout << "[]";
+        o << a.back();
     }
+    o << "]";
 
     return o;
 }
 
 inline std::ostream &operator<<(std::ostream &o, const Strings &a) {
     for (const String &v : a) {
-        std::cerr << "  " << v << std::endl;
+        o << "  " << v << std::endl;
     }
-    std::cerr << std::endl;
+    o << std::endl;
     return o;
 }
-- 
2.43.0


From ba604b87d423700fba76fda0ab6c2b5829fbc825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 28/52] fix: functions defined in headers were not inline
 (multiple definitions when included twice in a program)

---
 include/dataframe/functional/geo/cartesian_grid.h | 2 +-
 include/dataframe/functional/merge.h              | 2 +-
 include/dataframe/functional/utils/concat.h       | 2 +-
 include/dataframe/functional/utils/partition_n.h  | 2 +-
 include/dataframe/functional/utils/unzip.h        | 2 +-
 include/dataframe/functional/utils/zip.h          | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dataframe/functional/geo/cartesian_grid.h b/include/dataframe/functional/geo/cartesian_grid.h
index 9073fca..bd4e657 100644
--- a/include/dataframe/functional/geo/cartesian_grid.h
+++ b/include/dataframe/functional/geo/cartesian_grid.h
@@ -110,7 +110,7 @@ inline Serie from_dims(const std::vector<uint32_t> &npts,
  * auto cube = df::grid::cartesian::from_points({3,3,3}, {0,0,0}, {1,1,1});
  * ```
  */
-Serie from_points(const std::vector<uint32_t> &npts, const Array &p1,
+inline Serie from_points(const std::vector<uint32_t> &npts, const Array &p1,
                             const Array &p2) {
     if (npts.empty() || npts.size() > 3) {
         throw std::invalid_argument("npts must have 1, 2 or 3 components");
diff --git a/include/dataframe/functional/merge.h b/include/dataframe/functional/merge.h
index f7512f2..28a894f 100644
--- a/include/dataframe/functional/merge.h
+++ b/include/dataframe/functional/merge.h
@@ -32,7 +32,7 @@ namespace df {
 /**
  * If concatenate is false, interleave is used to merge the series
  */
-Serie merge(const Serie &s1, const Serie &s2, bool concatenate = true) {
+inline Serie merge(const Serie &s1, const Serie &s2, bool concatenate = true) {
     if (s1.itemSize() != s2.itemSize()) {
         throw std::invalid_argument("Series must have same itemSize");
     }
diff --git a/include/dataframe/functional/utils/concat.h b/include/dataframe/functional/utils/concat.h
index 94d5a01..42ef753 100644
--- a/include/dataframe/functional/utils/concat.h
+++ b/include/dataframe/functional/utils/concat.h
@@ -33,7 +33,7 @@ namespace utils {
 /**
  * Concatenate 2 or more series
  */
-Serie concat(const std::vector<Serie> &series) {
+inline Serie concat(const std::vector<Serie> &series) {
     if (series.empty()) {
         throw std::invalid_argument("concat requires at least one Serie");
     }
diff --git a/include/dataframe/functional/utils/partition_n.h b/include/dataframe/functional/utils/partition_n.h
index be50e82..c151e42 100644
--- a/include/dataframe/functional/utils/partition_n.h
+++ b/include/dataframe/functional/utils/partition_n.h
@@ -41,7 +41,7 @@ namespace utils {
  *  // parts[2]: {8,9,10}
  * ```
  */
-Series partition_n(uint32_t n, const Serie &serie) {
+inline Series partition_n(uint32_t n, const Serie &serie) {
     if (n == 0) {
         throw std::invalid_argument("n must be > 0");
     }
diff --git a/include/dataframe/functional/utils/unzip.h b/include/dataframe/functional/utils/unzip.h
index b00e8fe..076f398 100644
--- a/include/dataframe/functional/utils/unzip.h
+++ b/include/dataframe/functional/utils/unzip.h
@@ -35,7 +35,7 @@ namespace utils {
  * @param itemSizes Vector containing the itemSize for each output Serie
  * @return Series The unzipped Series
  */
-Series unzip(const Serie &zipped, const std::vector<uint32_t> &itemSizes) {
+inline Series unzip(const Serie &zipped, const std::vector<uint32_t> &itemSizes) {
     if (itemSizes.empty()) {
         throw std::invalid_argument("itemSizes cannot be empty");
     }
diff --git a/include/dataframe/functional/utils/zip.h b/include/dataframe/functional/utils/zip.h
index 55e5f07..b38cd41 100644
--- a/include/dataframe/functional/utils/zip.h
+++ b/include/dataframe/functional/utils/zip.h
@@ -108,7 +108,7 @@ MAKE_OP(zip);
  * auto result = zipVector(series);
  * ```
  */
-Serie zipVector(const std::vector<Serie> &series) {
+inline Serie zipVector(const std::vector<Serie> &series) {
     if (series.empty()) {
         throw std::invalid_argument("zipVector requires at least one Serie");
     }
-- 
2.43.0


From 227b69ff78edb0618f1f0305cc4e00ef60f6c57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 29/52] fix: sub.h defined a second variadic add (which
 subtracted, and clashed with add.h) instead of a variadic sub

---
 include/dataframe/functional/math/sub.h | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/include/dataframe/functional/math/sub.h b/include/dataframe/functional/math/sub.h
index 2b97bd7..1c43e89 100644
--- a/include/dataframe/functional/math/sub.h
+++ b/include/dataframe/functional/math/sub.h
@@ -54,20 +54,13 @@ inline Serie sub(const Serie &s1, const Serie &s2) {
     return result;
 }
 
-template <typename... Series> Serie add(const Series &...series) {
-    if constexpr (sizeof...(series) < 1) {
-        throw std::invalid_argument(
-            "Number of arguments (Serie) must be greater than 1. Got " +
-            std::to_string(sizeof...(series)) + " arguments)");
-    }
-
-    utils::countAndCheck(series...);
-
-    auto first = std::get<0>(std::tuple<const Series &...>(series...));
-
-    Serie result = Serie(first.itemSize(), first.count());
-    ((result = sub(result, series)), ...);
-    return result;
+/**
+ * @brief Subtract all the other Series from the first one
+ */
+template <typename... Series>
+Serie sub(const Serie &first, const Serie &second, const Serie &third,
+          const Series &...rest) {
+    return sub(sub(first, second), third, rest...);
 }
 
 MAKE_OP(sub);
-- 
2.43.0


From b5e4befe2b90054f746b32bc8d7b4ef1ae1d62a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 30/52] fix: dot.h defined make_det, which clashed with det.h,
 instead of make_dot

---
 include/dataframe/functional/algebra/dot.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/functional/algebra/dot.h b/include/dataframe/functional/algebra/dot.h
index f472899..767d888 100644
--- a/include/dataframe/functional/algebra/dot.h
+++ b/include/dataframe/functional/algebra/dot.h
@@ -30,7 +30,7 @@ namespace algebra {
 Serie dot(const Serie &a, const Serie &b);
 Serie dot(const Serie &a, const Array &b);
 
-MAKE_OP(det);
+MAKE_OP(dot);
 
 } // namespace algebra
 } // namespace df
-- 
2.43.0


From 85c6578638c28d59f28673675f6da872d914b797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 31/52] fix: Serie::pipe with one operation passed its
 arguments in the wrong order and did not compile

---
 include/dataframe/inline/Serie.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index fb5000f..e8830b5 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -54,7 +54,7 @@ template <typename F> auto Serie::filter(F &&predicate) const {
 }
 
 template <typename F> auto Serie::pipe(F &&op) const {
-    return df::pipe(op, *this);
+    return df::pipe(*this, op);
 }
 
 template <typename F, typename... Fs>
-- 
2.43.0


From 4d65760b6e43dda94bf674a2cba229e28c853b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 32/52] fix: selecting, splitting, sorting and joining Series
 dropped their dimension

---
 include/dataframe/functional/filter.h            |  9 +++++----
 include/dataframe/functional/find.h              |  2 +-
 include/dataframe/functional/merge.h             |  7 ++++---
 include/dataframe/functional/utils/concat.h      |  2 +-
 include/dataframe/functional/utils/partition.h   | 10 ++++++----
 include/dataframe/functional/utils/partition_n.h |  4 ++--
 include/dataframe/functional/utils/reject.h      |  9 +++++----
 include/dataframe/functional/utils/sort.h        |  4 ++--
 include/dataframe/functional/utils/unzip.h       |  2 +-
 include/dataframe/functional/utils/zip.h         |  5 +++--
 10 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/include/dataframe/functional/filter.h b/include/dataframe/functional/filter.h
index acac4df..50cc5ab 100644
--- a/include/dataframe/functional/filter.h
+++ b/include/dataframe/functional/filter.h
@@ -97,7 +97,7 @@ auto __filter__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(1, indices.size());
+    Serie result(1, indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<double>(indices[i]));
     }
@@ -117,7 +117,8 @@ auto __filter__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(serie.itemSize(), indices.size());
+    Serie result(serie.itemSize(), indices.size(),
+                 serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<Array>(indices[i]));
     }
@@ -179,7 +180,7 @@ auto filter(F &&predicate, const Args &...args) {
 
         // Create filtered Series
         auto filter_one = [&indices](const Serie &s) {
-            Serie filtered(s.itemSize(), indices.size());
+            Serie filtered(s.itemSize(), indices.size(), s.dimension());
             for (uint32_t i = 0; i < indices.size(); ++i) {
                 filtered.set(i, s.template get<Array>(indices[i]));
             }
@@ -253,7 +254,7 @@ Series filterAll(Pred &&predicate, const TheSeries &...series) {
 
     // Create filtered Series
     auto filter_one = [&indices](const Serie &s) {
-        Serie filtered(s.itemSize(), indices.size());
+        Serie filtered(s.itemSize(), indices.size(), s.dimension());
         for (uint32_t i = 0; i < indices.size(); ++i) {
             filtered.set(i, s.template get<Array>(indices[i]));
         }
diff --git a/include/dataframe/functional/find.h b/include/dataframe/functional/find.h
index 0076211..c4fa624 100644
--- a/include/dataframe/functional/find.h
+++ b/include/dataframe/functional/find.h
@@ -106,7 +106,7 @@ template <typename F> Serie findAll(F &&predicate, const Serie &serie) {
     }
 
     // Create result Serie
-    Serie result(serie.itemSize(), indices.size());
+    Serie result(serie.itemSize(), indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         if (serie.itemSize() == 1) {
             result.template set(i, serie.template get<double>(indices[i]));
diff --git a/include/dataframe/functional/merge.h b/include/dataframe/functional/merge.h
index 28a894f..9e7bc97 100644
--- a/include/dataframe/functional/merge.h
+++ b/include/dataframe/functional/merge.h
@@ -38,7 +38,7 @@ inline Serie merge(const Serie &s1, const Serie &s2, bool concatenate = true) {
     }
 
     if (concatenate) {
-        Serie result(s1.itemSize(), s1.count() + s2.count());
+        Serie result(s1.itemSize(), s1.count() + s2.count(), s1.dimension());
         uint32_t idx = 0;
 
         for (uint32_t i = 0; i < s1.count(); ++i, ++idx) {
@@ -49,7 +49,7 @@ inline Serie merge(const Serie &s1, const Serie &s2, bool concatenate = true) {
         }
         return result;
     } else { // Interleave
-        Serie result(s1.itemSize(), s1.count() + s2.count());
+        Serie result(s1.itemSize(), s1.count() + s2.count(), s1.dimension());
         uint32_t idx = 0;
 
         for (uint32_t i = 0; i < std::max(s1.count(), s2.count()); ++i) {
@@ -75,7 +75,8 @@ Serie merge(bool concatenate, const Series &...series) {
 
     uint32_t total_count = (series.count() + ...);
     Serie result(std::get<0>(std::forward_as_tuple(series...)).itemSize(),
-                 total_count);
+                 total_count,
+                 std::get<0>(std::forward_as_tuple(series...)).dimension());
 
     if (concatenate) {
         uint32_t idx = 0;
diff --git a/include/dataframe/functional/utils/concat.h b/include/dataframe/functional/utils/concat.h
index 42ef753..94fa74b 100644
--- a/include/dataframe/functional/utils/concat.h
+++ b/include/dataframe/functional/utils/concat.h
@@ -50,7 +50,7 @@ inline Serie concat(const std::vector<Serie> &series) {
         totalCount += s.count();
     }
 
-    Serie result(itemSize, totalCount);
+    Serie result(itemSize, totalCount, series[0].dimension());
     uint32_t currentIndex = 0;
 
     for (const auto &s : series) {
diff --git a/include/dataframe/functional/utils/partition.h b/include/dataframe/functional/utils/partition.h
index 45bc1f4..21c7944 100644
--- a/include/dataframe/functional/utils/partition.h
+++ b/include/dataframe/functional/utils/partition.h
@@ -56,8 +56,8 @@ template <typename F> auto partition(F &&predicate, const Serie &serie) {
             }
         }
 
-        Serie matched(1, matched_indices.size());
-        Serie unmatched(1, unmatched_indices.size());
+        Serie matched(1, matched_indices.size(), serie.dimension());
+        Serie unmatched(1, unmatched_indices.size(), serie.dimension());
 
         for (uint32_t i = 0; i < matched_indices.size(); ++i) {
             matched.set(i, serie.template get<double>(matched_indices[i]));
@@ -78,8 +78,10 @@ template <typename F> auto partition(F &&predicate, const Serie &serie) {
             }
         }
 
-        Serie matched(serie.itemSize(), matched_indices.size());
-        Serie unmatched(serie.itemSize(), unmatched_indices.size());
+        Serie matched(serie.itemSize(), matched_indices.size(),
+                serie.dimension());
+        Serie unmatched(serie.itemSize(), unmatched_indices.size(),
+                serie.dimension());
 
         for (uint32_t i = 0; i < matched_indices.size(); ++i) {
             matched.set(i, serie.template get<Array>(matched_indices[i]));
diff --git a/include/dataframe/functional/utils/partition_n.h b/include/dataframe/functional/utils/partition_n.h
index c151e42..bfa9693 100644
--- a/include/dataframe/functional/utils/partition_n.h
+++ b/include/dataframe/functional/utils/partition_n.h
@@ -56,7 +56,7 @@ inline Series partition_n(uint32_t n, const Serie &serie) {
     uint32_t start = 0;
     for (uint32_t i = 0; i < n; ++i) {
         uint32_t size = base_size + (i < remainder ? 1 : 0);
-        Serie part(serie.itemSize(), size);
+        Serie part(serie.itemSize(), size, serie.dimension());
         for (uint32_t j = 0; j < size; ++j) {
             part.set(j, serie.get<Array>(start + j));
         }
@@ -103,7 +103,7 @@ auto partition_n(uint32_t n, const Series &...series) {
         uint32_t start = 0;
         for (uint32_t i = 0; i < n; ++i) {
             uint32_t size = base_size + (i < remainder ? 1 : 0);
-            Serie part(s.itemSize(), size);
+            Serie part(s.itemSize(), size, s.dimension());
             for (uint32_t j = 0; j < size; ++j) {
                 part.set(j, s.get<Array>(start + j));
             }
diff --git a/include/dataframe/functional/utils/reject.h b/include/dataframe/functional/utils/reject.h
index 3171e17..c841977 100644
--- a/include/dataframe/functional/utils/reject.h
+++ b/include/dataframe/functional/utils/reject.h
@@ -46,7 +46,7 @@ auto __reject__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(1, indices.size());
+    Serie result(1, indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<double>(indices[i]));
     }
@@ -66,7 +66,8 @@ auto __reject__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(serie.itemSize(), indices.size());
+    Serie result(serie.itemSize(), indices.size(),
+                 serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<Array>(indices[i]));
     }
@@ -95,7 +96,7 @@ auto reject(F &&predicate, const Args &...args) {
 
         // Create filtered Series
         auto filter_one = [&indices](const Serie &s) {
-            Serie filtered(s.itemSize(), indices.size());
+            Serie filtered(s.itemSize(), indices.size(), s.dimension());
             for (uint32_t i = 0; i < indices.size(); ++i) {
                 filtered.set(i, s.template get<Array>(indices[i]));
             }
@@ -140,7 +141,7 @@ Series rejectAll(Pred &&predicate, const TheSeries &...series) {
 
     // Create filtered Series
     auto reject_one = [&indices](const Serie &s) {
-        Serie filtered(s.itemSize(), indices.size());
+        Serie filtered(s.itemSize(), indices.size(), s.dimension());
         for (uint32_t i = 0; i < indices.size(); ++i) {
             filtered.set(i, s.template get<Array>(indices[i]));
         }
diff --git a/include/dataframe/functional/utils/sort.h b/include/dataframe/functional/utils/sort.h
index ce150b0..c5521b5 100644
--- a/include/dataframe/functional/utils/sort.h
+++ b/include/dataframe/functional/utils/sort.h
@@ -49,7 +49,7 @@ Serie sort(const Serie &serie, Comparator &&comp) {
                 return comp(Array{a}, Array{b});
             });
         }
-        return Serie(1, values);
+        return Serie(1, values, serie.dimension());
     } else {
         std::vector<Array> values;
         values.reserve(serie.count());
@@ -64,7 +64,7 @@ Serie sort(const Serie &serie, Comparator &&comp) {
         for (const auto &v : values) {
             flattened.insert(flattened.end(), v.begin(), v.end());
         }
-        return Serie(serie.itemSize(), flattened);
+        return Serie(serie.itemSize(), flattened, serie.dimension());
     }
 }
 
diff --git a/include/dataframe/functional/utils/unzip.h b/include/dataframe/functional/utils/unzip.h
index 076f398..b028d91 100644
--- a/include/dataframe/functional/utils/unzip.h
+++ b/include/dataframe/functional/utils/unzip.h
@@ -51,7 +51,7 @@ inline Series unzip(const Serie &zipped, const std::vector<uint32_t> &itemSizes)
 
     uint32_t currentIndex = 0;
     for (uint32_t itemSize : itemSizes) {
-        Serie s(itemSize, zipped.count());
+        Serie s(itemSize, zipped.count(), zipped.dimension());
         for (uint32_t i = 0; i < zipped.count(); ++i) {
             if (itemSize == 1) {
                 s.setScalar(
diff --git a/include/dataframe/functional/utils/zip.h b/include/dataframe/functional/utils/zip.h
index b38cd41..c225701 100644
--- a/include/dataframe/functional/utils/zip.h
+++ b/include/dataframe/functional/utils/zip.h
@@ -63,7 +63,8 @@ template <typename... Series> Serie zip(const Series &...series) {
     const uint32_t totalItemSize = (... + series.itemSize());
 
     // Create result Serie
-    Serie result(totalItemSize, count);
+    Serie result(totalItemSize, count,
+                 std::get<0>(std::forward_as_tuple(series...)).dimension());
 
     // Helper to copy values from input Series to result
     auto copyValues = [&result](uint32_t itemIndex, const Serie &s) {
@@ -129,7 +130,7 @@ inline Serie zipVector(const std::vector<Serie> &series) {
     }
 
     // Create result Serie
-    Serie result(totalItemSize, count);
+    Serie result(totalItemSize, count, series[0].dimension());
 
     // Copy values from all input Series
     uint32_t currentIndex = 0;
-- 
2.43.0


From 10fa578ad3c7922567f680142b12e7db25233d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 33/52] fix: item-wise operations dropped the dimension of a
 Serie (det of the transpose of a 2D matrix Serie threw)

---
 .../dataframe/functional/conditional/check.h  |  4 ++--
 include/dataframe/functional/map.h            | 20 ++++++++++---------
 include/dataframe/functional/math/add.h       |  4 ++--
 include/dataframe/functional/math/equals.h    |  4 ++--
 include/dataframe/functional/math/sub.h       |  2 +-
 include/dataframe/functional/reduce.h         |  2 +-
 src/functional/algebra/eigen.cxx              |  4 ++--
 src/functional/algebra/norm.cxx               |  2 +-
 src/functional/math/mult.cxx                  |  2 +-
 9 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/include/dataframe/functional/conditional/check.h b/include/dataframe/functional/conditional/check.h
index 2057325..e83234c 100644
--- a/include/dataframe/functional/conditional/check.h
+++ b/include/dataframe/functional/conditional/check.h
@@ -38,7 +38,7 @@ template <typename F> auto check(const Serie &serie, F &&cb) {
         for (uint32_t i = 0; i < serie.count(); ++i) {
             results.push_back(cb(serie.template get<double>(i), i) ? 1.0 : 0.0);
         }
-        return Serie(1, results);
+        return Serie(1, results, serie.dimension());
     } else {
         // Input is vector
         Array results;
@@ -46,7 +46,7 @@ template <typename F> auto check(const Serie &serie, F &&cb) {
         for (uint32_t i = 0; i < serie.count(); ++i) {
             results.push_back(cb(serie.template get<Array>(i), i) ? 1.0 : 0.0);
         }
-        return Serie(1, results);
+        return Serie(1, results, serie.dimension());
     }
 }
 
diff --git a/include/dataframe/functional/map.h b/include/dataframe/functional/map.h
index 00a0dbc..d573f5c 100644
--- a/include/dataframe/functional/map.h
+++ b/include/dataframe/functional/map.h
@@ -46,11 +46,11 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
                 results.push_back(
                     static_cast<double>(cb(serie.template get<double>(i), i)));
             }
-            return Serie(1, results);
+            return Serie(1, results, serie.dimension());
         } else {
             // Scalar to vector
             if (serie.count() == 0) {
-                return Serie(0, 0);
+                return Serie(0, 0, serie.dimension());
             }
             auto first_result = cb(serie.template get<double>(0), 0);
             size_t itemSize = first_result.size();
@@ -68,7 +68,7 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
                 }
                 flattened.insert(flattened.end(), result.begin(), result.end());
             }
-            return Serie(itemSize, flattened);
+            return Serie(itemSize, flattened, serie.dimension());
         }
     } else {
         // Input is vector
@@ -81,11 +81,11 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
             for (uint32_t i = 0; i < serie.count(); ++i) {
                 results.push_back(cb(serie.template get<Array>(i), i));
             }
-            return Serie(1, results);
+            return Serie(1, results, serie.dimension());
         } else {
             // Vector to vector
             if (serie.count() == 0) {
-                return Serie(0, 0);
+                return Serie(0, 0, serie.dimension());
             }
             auto first_result = cb(serie.template get<Array>(0), 0);
             size_t itemSize = first_result.size();
@@ -103,7 +103,7 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
                 }
                 flattened.insert(flattened.end(), result.begin(), result.end());
             }
-            return Serie(itemSize, flattened);
+            return Serie(itemSize, flattened, serie.dimension());
         }
     }
 }
@@ -119,12 +119,14 @@ auto map(F &&callback, const Args &...args) {
                       "All arguments after callback must be Series");
 
         auto counts = utils::countAndCheck(args...);
+        const uint dimension =
+            std::get<0>(std::forward_as_tuple(args...)).dimension();
 
         if (counts[0] == 0) {
             // No item to call the callback with
             using ResultType = std::decay_t<decltype(callback(
                 args.template get<Array>(0)..., uint32_t(0)))>;
-            return std::is_arithmetic_v<ResultType> ? Serie(1, 0) : Serie(0, 0);
+            return Serie(std::is_arithmetic_v<ResultType> ? 1 : 0, 0, dimension);
         }
 
         // Get first result to determine output Serie properties
@@ -140,7 +142,7 @@ auto map(F &&callback, const Args &...args) {
             for (uint32_t i = 1; i < counts[0]; ++i) {
                 results.push_back(callback(args.template get<Array>(i)..., i));
             }
-            result = Serie(1, results);
+            result = Serie(1, results, dimension);
         } else {
             // Callback returns Array
             const size_t itemSize = first_result.size();
@@ -158,7 +160,7 @@ auto map(F &&callback, const Args &...args) {
                 flattened.insert(flattened.end(), result_i.begin(),
                                  result_i.end());
             }
-            result = Serie(itemSize, flattened);
+            result = Serie(itemSize, flattened, dimension);
         }
         return result;
 
diff --git a/include/dataframe/functional/math/add.h b/include/dataframe/functional/math/add.h
index 0e3a843..9de5c04 100644
--- a/include/dataframe/functional/math/add.h
+++ b/include/dataframe/functional/math/add.h
@@ -37,7 +37,7 @@ inline Serie add(const Serie &s1, const Serie &s2) {
         throw std::invalid_argument("Series must have same itemSize and count");
     }
 
-    Serie result(s1.itemSize(), s1.count());
+    Serie result(s1.itemSize(), s1.count(), s1.dimension());
 
     for (uint32_t i = 0; i < s1.count(); ++i) {
         if (s1.itemSize() == 1) {
@@ -66,7 +66,7 @@ template <typename... Series> Serie add(const Series &...series) {
 
     auto first = std::get<0>(std::tuple<const Series &...>(series...));
 
-    Serie result = Serie(first.itemSize(), first.count());
+    Serie result = Serie(first.itemSize(), first.count(), first.dimension());
     ((result = add(result, series)), ...);
     return result;
 }
diff --git a/include/dataframe/functional/math/equals.h b/include/dataframe/functional/math/equals.h
index 00a883f..5aeec87 100644
--- a/include/dataframe/functional/math/equals.h
+++ b/include/dataframe/functional/math/equals.h
@@ -125,7 +125,7 @@ inline Serie equalityMask(const Serie &s1, const Serie &s2) {
         throw std::invalid_argument("Series must have same dimensions");
     }
 
-    Serie result(1, s1.count());
+    Serie result(1, s1.count(), s1.dimension());
     for (uint32_t i = 0; i < s1.count(); ++i) {
         if (s1.itemSize() == 1) {
             result.setScalar(i, s1.scalar(i) == s2.scalar(i) ? 1.0 : 0.0);
@@ -161,7 +161,7 @@ inline Serie approximateEqualityMask(const Serie &s1, const Serie &s2,
         throw std::invalid_argument("Series must have same dimensions");
     }
 
-    Serie result(1, s1.count());
+    Serie result(1, s1.count(), s1.dimension());
     for (uint32_t i = 0; i < s1.count(); ++i) {
         if (s1.itemSize() == 1) {
             result.setScalar(i, std::abs(s1.scalar(i) - s2.scalar(i)) <= epsilon
diff --git a/include/dataframe/functional/math/sub.h b/include/dataframe/functional/math/sub.h
index 1c43e89..a3f3989 100644
--- a/include/dataframe/functional/math/sub.h
+++ b/include/dataframe/functional/math/sub.h
@@ -36,7 +36,7 @@ inline Serie sub(const Serie &s1, const Serie &s2) {
         throw std::invalid_argument("Series must have same itemSize and count");
     }
 
-    Serie result(s1.itemSize(), s1.count());
+    Serie result(s1.itemSize(), s1.count(), s1.dimension());
 
     for (uint32_t i = 0; i < s1.count(); ++i) {
         if (s1.itemSize() == 1) {
diff --git a/include/dataframe/functional/reduce.h b/include/dataframe/functional/reduce.h
index 94cc3f1..bc6ef61 100644
--- a/include/dataframe/functional/reduce.h
+++ b/include/dataframe/functional/reduce.h
@@ -94,7 +94,7 @@ auto reduce(F &&cb, const Serie &serie, const Array &init)
     for (uint32_t i = 0; i < serie.count(); ++i) {
         result = cb(result, serie.template get<Array>(i), i);
     }
-    return Serie(result.size(), {result.begin(), result.end()});
+    return Serie(result.size(), result, serie.dimension());
 }
 
 /**
diff --git a/src/functional/algebra/eigen.cxx b/src/functional/algebra/eigen.cxx
index e0e85b1..1b50883 100644
--- a/src/functional/algebra/eigen.cxx
+++ b/src/functional/algebra/eigen.cxx
@@ -133,8 +133,8 @@ EigenSystem eigenSystem(const Serie &serie) {
         double eigen_val[2];
         double m[3];
 
-        Serie values(2, serie.count());
-        Serie vectors(4, serie.count());
+        Serie values(2, serie.count(), 2);
+        Serie vectors(4, serie.count(), 2);
 
         for (uint32_t i = 0; i < serie.count(); ++i) {
             Array mat = serie.get<Array>(i);
diff --git a/src/functional/algebra/norm.cxx b/src/functional/algebra/norm.cxx
index b184499..fd72491 100644
--- a/src/functional/algebra/norm.cxx
+++ b/src/functional/algebra/norm.cxx
@@ -50,7 +50,7 @@ Serie norm2(const Serie &s) {
         data[i] = n;
     }
 
-    return Serie(1, data);
+    return Serie(1, data, s.dimension());
 }
 
 } // namespace algebra
diff --git a/src/functional/math/mult.cxx b/src/functional/math/mult.cxx
index 04b1c92..83965bc 100644
--- a/src/functional/math/mult.cxx
+++ b/src/functional/math/mult.cxx
@@ -59,7 +59,7 @@ Serie mult(const Serie &serie, const Serie &multiplier) {
         for (uint32_t i = 0; i < a1.size(); ++i) {
             a3[i] = a1[i] * a2[i];
         }
-        return Serie(1, a3);
+        return Serie(1, a3, serie.dimension());
     }
 
     return serie.map(
-- 
2.43.0


From df98d329f86e924656e7752d4a0235547a923c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 34/52] fix: symmetricEigen leaked its buffers when an
 allocation failed

---
 src/functional/algebra/eigen.cxx | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/functional/algebra/eigen.cxx b/src/functional/algebra/eigen.cxx
index 1b50883..764d994 100644
--- a/src/functional/algebra/eigen.cxx
+++ b/src/functional/algebra/eigen.cxx
@@ -210,9 +210,11 @@ void symmetricEigen(const double *mat, int n, double *eigen_vec,
 
     int nb_iter = 0;
     int nn = (n * (n + 1)) / 2;
-    double *a = new double[nn];
-    double *v = new double[n * n];
-    int *index = new int[n];
+    Array a_data(nn);
+    Array v_data(n * n);
+    std::vector<int> index(n);
+    double *a = a_data.data();
+    double *v = v_data.data();
 
     for (int ij = 0; ij < nn; ++ij) {
         a[ij] = mat[ij];
@@ -332,8 +334,6 @@ void symmetricEigen(const double *mat, int n, double *eigen_vec,
         eigen_val[i] = a[k];
     }
 
-    delete[] a;
-
     for (int i = 0; i < n; ++i) {
         index[i] = i;
     }
@@ -366,9 +366,6 @@ void symmetricEigen(const double *mat, int n, double *eigen_vec,
             eigen_vec[ij++] = v[ik++];
         }
     }
-
-    delete[] v;
-    delete[] index;
 }
 
 } // namespace algebra
-- 
2.43.0


From 0cd0cfc907bbcde373ee75f46fa365f7945aa3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 35/52] fix: minMax of a scalar Serie was wrong when all the
 values are infinite

---
 src/functional/math/minMax.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functional/math/minMax.cxx b/src/functional/math/minMax.cxx
index 8804042..c692b87 100644
--- a/src/functional/math/minMax.cxx
+++ b/src/functional/math/minMax.cxx
@@ -37,8 +37,8 @@ MinMax minMax(const Serie &serie) {
 
     if (serie.itemSize() == 1) {
         // Scalar case
-        double min = std::numeric_limits<double>::max();
-        double max = std::numeric_limits<double>::lowest();
+        double min = std::numeric_limits<double>::infinity();
+        double max = -std::numeric_limits<double>::infinity();
 
         for (uint32_t i = 0; i < serie.count(); ++i) {
             double v = serie.template get<double>(i);
-- 
2.43.0


From 84dee14d297675d853e3d77d9f879fe6ce8af337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 36/52] fix: add, sub and weigthedSum of an empty list read the
 first Serie

---
 src/functional/math/add.cxx         | 4 ++++
 src/functional/math/sub.cxx         | 4 ++++
 src/functional/math/weightedSum.cxx | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/functional/math/add.cxx b/src/functional/math/add.cxx
index 01b8b53..ead27fd 100644
--- a/src/functional/math/add.cxx
+++ b/src/functional/math/add.cxx
@@ -29,6 +29,10 @@ namespace math {
 Serie add(const std::initializer_list<Serie> &list) {
     Series series(list);
 
+    if (series.empty()) {
+        throw std::invalid_argument("(add) At least one Serie is required");
+    }
+
     const Serie &firstSerie = series[0];
     uint32_t itemSize = firstSerie.itemSize();
 
diff --git a/src/functional/math/sub.cxx b/src/functional/math/sub.cxx
index cbdf0ab..61d50b0 100644
--- a/src/functional/math/sub.cxx
+++ b/src/functional/math/sub.cxx
@@ -29,6 +29,10 @@ namespace math {
 Serie sub(const std::initializer_list<Serie> &list) {
     Series series(list);
 
+    if (series.empty()) {
+        throw std::invalid_argument("(sub) At least one Serie is required");
+    }
+
     const Serie &firstSerie = series[0];
     uint32_t itemSize = firstSerie.itemSize();
 
diff --git a/src/functional/math/weightedSum.cxx b/src/functional/math/weightedSum.cxx
index 80ad145..6dec474 100644
--- a/src/functional/math/weightedSum.cxx
+++ b/src/functional/math/weightedSum.cxx
@@ -30,6 +30,10 @@ Serie weigthedSum(const std::initializer_list<Serie> &list,
                   const Array &weights) {
     Series series(list);
 
+    if (series.empty()) {
+        throw std::invalid_argument("(weightedSum) At least one Serie is required");
+    }
+
     if (series.size() != weights.size()) {
         throw std::invalid_argument("(weightedSum) Number of series (" +
                                     std::to_string(series.size()) +
-- 
2.43.0


From d3cdbd910e8cc253a92c527547a3fc3eccf02513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 37/52] fix: Vector operations read out of bounds when the
 sizes differ

---
 src/view/Vector.cxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/view/Vector.cxx b/src/view/Vector.cxx
index dbdeb05..436f7af 100644
--- a/src/view/Vector.cxx
+++ b/src/view/Vector.cxx
@@ -23,10 +23,21 @@
 #include <dataframe/view/Vector.h>
 #include <cmath>
 #include <numeric>
+#include <stdexcept>
 
 namespace df
 {
 
+    static void checkSize(const Vector &a, const Vector &b)
+    {
+        if (a.length() != b.length())
+        {
+            throw std::invalid_argument("size mismatch between two vectors");
+        }
+    }
+
+    // ---------------------------------------------------------
+
     Vector::Vector()
     {
     }
@@ -81,6 +92,7 @@ namespace df
 
     Vector &Vector::mult(const Vector &s)
     {
+        checkSize(*this, s);
         uint32_t id = 0;
         auto op = [s, id](double x) mutable
         { return x * s[id++]; };
@@ -90,6 +102,7 @@ namespace df
 
     Vector &Vector::add(const Vector &s)
     {
+        checkSize(*this, s);
         uint32_t id = 0;
         auto op = [s, id](double x) mutable
         { return x + s[id++]; };
@@ -99,6 +112,7 @@ namespace df
 
     Vector &Vector::sub(const Vector &s)
     {
+        checkSize(*this, s);
         uint32_t id = 0;
         auto op = [s, id](double x) mutable
         { return x - s[id++]; };
@@ -108,6 +122,7 @@ namespace df
 
     double Vector::dot(const Vector &s) const
     {
+        checkSize(*this, s);
         double d = 0;
         for (uint32_t i = 0; i < v_.size(); ++i)
         {
-- 
2.43.0


From e4bae98bf42d1edcc564e74d0b3a758df5e799e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 38/52] fix: Valence wrote out of bounds for an index outside
 of the positions

---
 src/attributes/Valence.cxx | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/attributes/Valence.cxx b/src/attributes/Valence.cxx
index 2334007..ac850d9 100644
--- a/src/attributes/Valence.cxx
+++ b/src/attributes/Valence.cxx
@@ -58,12 +58,21 @@ namespace df
             return Serie();
         }
 
+        if (indices.itemSize() != 3) {
+            return Serie();
+        }
+
         Array ids = createArray(positions.count(), 0);
 
         indices.forEach( [&](const Array& t, uint32_t) {
-            ids[t[0]]++;
-            ids[t[1]]++;
-            ids[t[2]]++;
+            for (double index : t) {
+                if (!(index >= 0 && index < ids.size())) {
+                    throw std::invalid_argument(
+                        "Valence: index out of bounds (" +
+                        std::to_string(index) + ")");
+                }
+                ids[index]++;
+            }
         });
 
         return Serie(1, ids);
-- 
2.43.0


From d5e9f2a7df8242a5c631b791ae390011a9083f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 39/52] fix: Serie::dump threw for a scalar Serie

---
 src/Serie.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index e5a999a..9e5cd33 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -75,13 +75,13 @@ uint32_t Serie::itemSize() const { return itemSize_; }
 uint Serie::dimension() const { return dimension_; }
 
 void Serie::dump() const {
-    forEach([](const Array &t, uint32_t i) {
+    for (uint32_t i = 0; i < count_; ++i) {
         std::cerr << i << ": ";
-        for (auto tt : t) {
+        for (auto tt : value(i)) {
             std::cerr << tt << " ";
         }
         std::cerr << std::endl;
-    });
+    }
 
     std::cerr << std::endl;
 }
-- 
2.43.0


From fc5550af86eacffeb19a064c11bb4b6b021bb2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 40/52] fix: parallel_execute.h hid df::details from the
 headers included after it

---
 include/dataframe/functional/utils/parallel_execute.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dataframe/functional/utils/parallel_execute.h b/include/dataframe/functional/utils/parallel_execute.h
index ba373cf..c662730 100644
--- a/include/dataframe/functional/utils/parallel_execute.h
+++ b/include/dataframe/functional/utils/parallel_execute.h
@@ -33,7 +33,7 @@
 namespace df {
 namespace utils {
 
-namespace details {
+namespace parallel_details {
 
 // Helper to detect return type of functor when called with a Serie
 template <typename F> struct returns_serie {
@@ -52,7 +52,7 @@ template <typename F> struct returns_serie {
 template <typename F>
 inline constexpr bool returns_serie_v = returns_serie<F>::value;
 
-} // namespace details
+} // namespace parallel_details
 
 // -----------------------------------------------------------
 
@@ -63,7 +63,7 @@ inline constexpr bool returns_serie_v = returns_serie<F>::value;
  */
 template <typename Functor>
 Serie parallel_execute(Functor &&fct, const Serie &serie, uint nbCores) {
-    static_assert(details::returns_serie_v<Functor>,
+    static_assert(parallel_details::returns_serie_v<Functor>,
                   "Functor must return a Serie");
 
     if (nbCores < 1) {
-- 
2.43.0


From 74d604eb0f9846d5cc0555a0b1850a3e77c85268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 41/52] fix: if_then_else did not compile

---
 include/dataframe/functional/conditional/if.h | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/dataframe/functional/conditional/if.h b/include/dataframe/functional/conditional/if.h
index c69728d..7edbf67 100644
--- a/include/dataframe/functional/conditional/if.h
+++ b/include/dataframe/functional/conditional/if.h
@@ -22,7 +22,7 @@
  */
 
 #pragma once
-#include "../Serie.h"
+#include "../../Serie.h"
 
 namespace df {
 namespace cond {
@@ -55,13 +55,21 @@ namespace cond {
 template <typename Check, typename True, typename False>
 Serie if_then_else(const Serie &serie, Check &&check_fn, True &&true_fn,
                    False &&false_fn) {
-    return map(serie, [check_fn = std::forward<Check>(check_fn),
-                       true_fn = std::forward<True>(true_fn),
-                       false_fn = std::forward<False>(false_fn),
-                       &serie](const auto &value, uint32_t i) {
-        return check_fn(value) ? true_fn(value, i, serie)
-                               : false_fn(value, i, serie);
-    });
+    if constexpr (std::is_invocable_v<Check, const Array &>) {
+        return map(
+            [&](const Array &value, uint32_t i) {
+                return check_fn(value) ? true_fn(value, i, serie)
+                                       : false_fn(value, i, serie);
+            },
+            serie);
+    } else {
+        return map(
+            [&](double value, uint32_t i) {
+                return check_fn(value) ? true_fn(value, i, serie)
+                                       : false_fn(value, i, serie);
+            },
+            serie);
+    }
 }
 
 MAKE_OP(if_then_else);
-- 
2.43.0


From e51f409b27f409c5b864f52cc56195957d4fdd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 42/52] fix: quantile at the position of a value is that value,
 also next to an infinite one

---
 src/functional/stats/quantile.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/stats/quantile.cxx b/src/functional/stats/quantile.cxx
index 139c504..93f6f0e 100644
--- a/src/functional/stats/quantile.cxx
+++ b/src/functional/stats/quantile.cxx
@@ -51,7 +51,7 @@ double quantile(const Serie &s, double q) {
     double pos = (sorted.size() - 1) * q;
     double base = std::floor(pos);
     double rest = pos - base;
-    if (uint32_t(base + 1) < sorted.size()) {
+    if (rest > 0 && uint32_t(base + 1) < sorted.size()) {
         return sorted[uint32_t(base)] +
                rest * (sorted[uint32_t(base + 1)] - sorted[uint32_t(base)]);
     } else {
-- 
2.43.0


From 1a97837f6fee47fe99814b21261c3b5e2471263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 43/52] fix: normals took a NaN, negative or huge index for
 another node (undefined conversion to unsigned)

---
 src/functional/geo/normals.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/functional/geo/normals.cxx b/src/functional/geo/normals.cxx
index 8b14e4f..a838a55 100644
--- a/src/functional/geo/normals.cxx
+++ b/src/functional/geo/normals.cxx
@@ -47,6 +47,12 @@ Serie normals(const Serie &positions, const Serie &indices) {
 
     uint32_t i = 0;
     indices.forEach([&](const Array &t, uint32_t index) {
+        for (double node : t) {
+            if (!(node >= 0 && node < positions.count())) {
+                throw std::invalid_argument("normals: index out of bounds (" +
+                                            std::to_string(node) + ")");
+            }
+        }
         auto v1 = positions.value(t[0]);
         auto v2 = positions.value(t[1]);
         auto v3 = positions.value(t[2]);
-- 
2.43.0


From 399ee0ba0b0737e1f82c8934d7251ac25554e9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 44/52] fix: squaredMatrix and symSquaredMatrix read or wrote
 beyond arrays of other sizes

---
 src/view/Matrix.cxx | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/view/Matrix.cxx b/src/view/Matrix.cxx
index b1c6d14..7537563 100644
--- a/src/view/Matrix.cxx
+++ b/src/view/Matrix.cxx
@@ -22,6 +22,8 @@
  */
 #include <dataframe/view/Matrix.h>
 #include <cmath>
+#include <stdexcept>
+#include <string>
 
 namespace df
 {
@@ -161,13 +163,21 @@ namespace df
 
     Matrix squaredMatrix(const Array &v)
     {
-        auto m = std::sqrt(v.size());
+        const uint m = std::lround(std::sqrt(v.size()));
+        if (size_t(m) * m != v.size())
+        {
+            throw std::invalid_argument("the number of values (" + std::to_string(v.size()) + ") is not a square");
+        }
         return Matrix(v, m);
     }
 
     Matrix symSquaredMatrix(const Array &v)
     {
-        auto m = (std::sqrt(8 * v.size() + 1) - 1) / 2;
+        const uint m = std::lround((std::sqrt(8 * v.size() + 1) - 1) / 2);
+        if (size_t(m) * (m + 1) / 2 != v.size())
+        {
+            throw std::invalid_argument("the number of values (" + std::to_string(v.size()) + ") is not that of a symmetric matrix");
+        }
         Array w = createArray(m * m, 0);
         for (uint i = 0; i < m; ++i)
         {
-- 
2.43.0


From 2ab038d9f01d50da1dd3eb0fa279881d83c49cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 45/52] fix: a Serie was left with a count larger than its
 values when assignment or reCount ran out of memory

---
 src/Serie.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 9e5cd33..7df8966 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -52,15 +52,15 @@ Serie::Serie(int itemSize, const std::initializer_list<double> &values,
 bool Serie::isValid() const { return itemSize_ > 0; }
 
 void Serie::reCount(uint32_t c) {
+    s_ = Array(c * itemSize_); // first: may throw
     count_ = c;
-    s_ = Array(c * itemSize_);
 }
 
 Serie &Serie::operator=(const Serie &s) {
+    s_ = Array(s.s_.cbegin(), s.s_.cend()); // first: may throw
     count_ = s.count_;
     itemSize_ = s.itemSize_;
     dimension_ = s.dimension_;
-    s_ = Array(s.s_.cbegin(), s.s_.cend());
     return *this;
 }
 
-- 
2.43.0


From cea7c220c530fda1e4e71afc745ec3044e0271db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 46/52] fix: Dataframe::add left an invalid Serie under the
 name when it ran out of memory

---
 src/Dataframe.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Dataframe.cxx b/src/Dataframe.cxx
index f1385f0..2e3757a 100644
--- a/src/Dataframe.cxx
+++ b/src/Dataframe.cxx
@@ -71,7 +71,7 @@ namespace df
         {
             // throw std::invalid_argument("Cannot add a Serie in a Dataframe when its count (" + std::to_string(serie.count()) + ") is different from the Dataframe count (" + std::to_string(count_) + ")");
         }
-        series_[name] = serie;
+        series_.insert_or_assign(name, serie);
     }
 
     /**
-- 
2.43.0


From 101a8a96a7c90199fea2f79ebccb2d07184f19de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 47/52] fix: Manager::add leaked the decomposer when it ran out
 of memory

---
 src/attributes/Manager.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/attributes/Manager.cxx b/src/attributes/Manager.cxx
index bfef57a..58988d2 100644
--- a/src/attributes/Manager.cxx
+++ b/src/attributes/Manager.cxx
@@ -26,6 +26,7 @@
 #include <dataframe/types.h>
 #include <set>
 #include <algorithm>
+#include <memory>
 
 namespace df
 {
@@ -45,7 +46,9 @@ namespace df
 
     void Manager::add(Decomposer *decomposer)
     {
+        std::unique_ptr<Decomposer> owned(decomposer);
         ds_.push_back(decomposer);
+        owned.release();
     }
 
     void Manager::clear()
-- 
2.43.0


From bf11da7aa21ec08d6da39d2a465625262a5ef9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 48/52] fix: memoize kept an invalid Serie as result when
 storing it ran out of memory

---
 include/dataframe/functional/utils/memoize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/functional/utils/memoize.h b/include/dataframe/functional/utils/memoize.h
index 3c95059..8a766f8 100644
--- a/include/dataframe/functional/utils/memoize.h
+++ b/include/dataframe/functional/utils/memoize.h
@@ -42,7 +42,7 @@ template <typename F> class Memoized {
             return it->second;
         }
         auto result = func(s);
-        cache[key] = result;
+        cache.insert_or_assign(std::move(key), result);
         return result;
     }
 
-- 
2.43.0


From 2757594349164a253ef3967e6560b2e179739e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 49/52] fix: Dataframe::setCount left some of the Series and
 its own count changed when it ran out of memory

---
 src/Dataframe.cxx | 14 ++++++++------
 src/Serie.cxx     |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/Dataframe.cxx b/src/Dataframe.cxx
index 2e3757a..511854d 100644
--- a/src/Dataframe.cxx
+++ b/src/Dataframe.cxx
@@ -45,15 +45,17 @@ namespace df
     {
         if (count_ != count && count > 0)
         {
-            count_ = count;
-            if (series_.size())
+            // first: may throw
+            for (auto it = series_.begin(); it != series_.end(); ++it)
             {
-                for (auto it = series_.begin(); it != series_.end(); ++it)
-                {
+                it->second.asArray().reserve(count * it->second.itemSize());
+            }
 
-                    it->second.reCount(count);
-                }
+            for (auto it = series_.begin(); it != series_.end(); ++it)
+            {
+                it->second.reCount(count);
             }
+            count_ = count;
         }
     }
 
diff --git a/src/Serie.cxx b/src/Serie.cxx
index 7df8966..11d427e 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -52,7 +52,7 @@ Serie::Serie(int itemSize, const std::initializer_list<double> &values,
 bool Serie::isValid() const { return itemSize_ > 0; }
 
 void Serie::reCount(uint32_t c) {
-    s_ = Array(c * itemSize_); // first: may throw
+    s_.assign(c * itemSize_, 0.0); // first: may throw
     count_ = c;
 }
 
-- 
2.43.0


From ad0be4965cf73429dcb89fe719177a076dee7b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:46 +0000
Subject: [PATCH 50/52] fix: Dataframe::add set the count of an empty Dataframe
 although storing the Serie ran out of memory

---
 src/Dataframe.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Dataframe.cxx b/src/Dataframe.cxx
index 511854d..3e70e2e 100644
--- a/src/Dataframe.cxx
+++ b/src/Dataframe.cxx
@@ -64,16 +64,16 @@ namespace df
      */
     void Dataframe::add(const std::string &name, const Serie &serie)
     {
-        if (count_ == 0)
-        {
-            count_ = serie.count();
-        }
-
-        if (count_ != serie.count())
+        if (count_ != 0 && count_ != serie.count())
         {
             // throw std::invalid_argument("Cannot add a Serie in a Dataframe when its count (" + std::to_string(serie.count()) + ") is different from the Dataframe count (" + std::to_string(count_) + ")");
         }
+        const uint32_t count = serie.count();
         series_.insert_or_assign(name, serie);
+        if (count_ == 0)
+        {
+            count_ = count;
+        }
     }
 
     /**
-- 
2.43.0


From ff46cf1b50d5de9d65a9cfc893853d2e73bb975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:27 +0000
Subject: [PATCH 51/52] fix: Dataframe::contains did not find the Serie stored
 with an empty name

---
 src/Dataframe.cxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Dataframe.cxx b/src/Dataframe.cxx
index 3e70e2e..b87066b 100644
--- a/src/Dataframe.cxx
+++ b/src/Dataframe.cxx
@@ -135,8 +135,14 @@ namespace df
 
     bool Dataframe::contains(const Serie &serie) const
     {
-        String name = nameOfSerie(*this, serie);
-        return name.size() == 0 ? false : true;
+        for (auto it = series_.cbegin(); it != series_.cend(); ++it)
+        {
+            if (&it->second == &serie)
+            {
+                return true;
+            }
+        }
+        return false;
     }
 
     bool Dataframe::contains(const String &name) const
-- 
2.43.0


From 460e38ef94a01cdca88db9f8892eba3ee18ad340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:31 +0000
Subject: [PATCH 52/52] fix: copying a Manager, e.g. when returning it from a
 function, deleted its decomposers twice

---
 include/dataframe/attributes/Manager.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dataframe/attributes/Manager.h b/include/dataframe/attributes/Manager.h
index bd5e7d9..78236f3 100644
--- a/include/dataframe/attributes/Manager.h
+++ b/include/dataframe/attributes/Manager.h
@@ -42,6 +42,7 @@ namespace df
          * By default, no decomposer...
          */
         Manager(const Dataframe &dataframe, const std::vector<Decomposer*> &decomposers = {}, uint dimension=3);
+        Manager(Manager &&) = default; // no copy: the decomposers have one owner
         ~Manager();
 
         void add(Decomposer* decomposer);
-- 
2.43.0

