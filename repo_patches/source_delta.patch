From 0607ff8049fb721a4287f070b6cd60241fd55928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 01/48] fix: WriteCooList works for any value type and keeps
 full precision

Values were read through a vector<double> reference, which does not compile
for other value types, and written with the default six digits, unlike every
other text format.
---
 include/parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 2f6dd18..d6ce44a 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -370,10 +370,12 @@ void WriteCooList(const SparseMatrix<T>& mat, const std::string& file_name, bool
 
     const std::vector<int>& indptr = mat.GetIndptr();
     const std::vector<int>& indices = mat.GetIndices();
-    const std::vector<double>& data = mat.GetData();
+    const std::vector<T>& data = mat.GetData();
 
     const int rows = mat.Rows();
 
+    file.precision(16);
+
     for (int i = 0; i < rows; ++i)
     {
         for (int j = indptr[i]; j < indptr[i + 1]; ++j)
-- 
2.43.0


From f760e12cb7395174eebd8eb9dd045367df11ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 02/48] fix: parser writers report data that could not be
 written

A full disk or an I/O error while writing or closing was ignored: every Write
function returned normally after leaving a truncated file behind.
---
 include/parser.hpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index d6ce44a..84bcaa9 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -14,6 +14,21 @@
 namespace linalgcpp
 {
 
+/*! @brief Finish a written file, throw if any part of it could not be written
+    @param file file to close
+    @param file_name name of the file
+*/
+inline
+void CloseOutput(std::ofstream& file, const std::string& file_name)
+{
+    file.close();
+
+    if (!file)
+    {
+        throw std::runtime_error("Failed to write file: " + file_name);
+    }
+}
+
 /*! @brief Read a text file from disk.
     @param file_name file to read
     @retval vector of data read from disk
@@ -60,6 +75,8 @@ void WriteText(const T& vect, const std::string& file_name)
     {
         file << val << "\n";
     }
+
+    CloseOutput(file, file_name);
 }
 
 /*! @brief Write a vector to a text file on disk in binary format
@@ -83,7 +100,7 @@ void WriteBinary(const std::vector<T>& vect, const std::string& file_name)
     file.write(reinterpret_cast<const char*>(&size), sizeof(size));
     file.write(reinterpret_cast<const char*>(&vect[0]), size * sizeof(T));
 
-    file.close();
+    CloseOutput(file, file_name);
 }
 
 /*! @brief Read a vector to a text file on disk in binary format
@@ -147,7 +164,7 @@ void WriteBinary(const SparseMatrix<T>& mat, const std::string& file_name)
     file.write(reinterpret_cast<const char*>(&indices[0]), nnz * sizeof(int));
     file.write(reinterpret_cast<const char*>(&data[0]), nnz * sizeof(T));
 
-    file.close();
+    CloseOutput(file, file_name);
 }
 
 /*! @brief Read a csr matrix from a text file on disk in binary format
@@ -305,7 +322,7 @@ void WriteAdjList(const SparseMatrix<T>& mat, const std::string& file_name, bool
         }
     }
 
-    file.close();
+    CloseOutput(file, file_name);
 }
 
 /*! @brief Read a coordinate list from disk.
@@ -389,7 +406,7 @@ void WriteCooList(const SparseMatrix<T>& mat, const std::string& file_name, bool
         }
     }
 
-    file.close();
+    CloseOutput(file, file_name);
 }
 
 /*! @brief Read a table from file from disk.
@@ -469,7 +486,7 @@ void WriteTable(const SparseMatrix<T>& mat, const std::string& file_name)
         file << "\n";
     }
 
-    file.close();
+    CloseOutput(file, file_name);
 }
 
 /*! @brief Read a CSR Matrix from disk.
@@ -563,7 +580,7 @@ void WriteCSR(const SparseMatrix<T>& mat, const std::string& file_name)
         file << i << "\n";
     }
 
-    file.close();
+    CloseOutput(file, file_name);
 }
 
 /*! @brief Read matrix market coordinate format from disk.
@@ -725,7 +742,7 @@ void WriteMTX(const SparseMatrix<T>& mat, const std::string& file_name)
         }
     }
 
-    file.close();
+    CloseOutput(file, file_name);
 }
 
 } // namespace mylinalg
-- 
2.43.0


From 2654254cf3319be206685af538b9f429a7816fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 03/48] fix: parser reads and writes files without any entries

Binary files of empty vectors and matrices indexed element 0 of an empty
vector, and ReadTable dereferenced the end iterator when no row has an entry.
---
 include/parser.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 84bcaa9..04ba421 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -98,7 +98,7 @@ void WriteBinary(const std::vector<T>& vect, const std::string& file_name)
     size_t size = vect.size();
 
     file.write(reinterpret_cast<const char*>(&size), sizeof(size));
-    file.write(reinterpret_cast<const char*>(&vect[0]), size * sizeof(T));
+    file.write(reinterpret_cast<const char*>(vect.data()), size * sizeof(T));
 
     CloseOutput(file, file_name);
 }
@@ -124,7 +124,7 @@ std::vector<T> ReadBinaryVect(const std::string& file_name)
 
     std::vector<T> vect(size);
 
-    file.read(reinterpret_cast<char*>(&vect[0]), size * sizeof(T));
+    file.read(reinterpret_cast<char*>(vect.data()), size * sizeof(T));
     file.close();
 
     return vect;
@@ -160,9 +160,9 @@ void WriteBinary(const SparseMatrix<T>& mat, const std::string& file_name)
     file.write(reinterpret_cast<const char*>(&cols), sizeof(cols));
     file.write(reinterpret_cast<const char*>(&nnz), sizeof(nnz));
 
-    file.write(reinterpret_cast<const char*>(&indptr[0]), (rows + 1) * sizeof(int));
-    file.write(reinterpret_cast<const char*>(&indices[0]), nnz * sizeof(int));
-    file.write(reinterpret_cast<const char*>(&data[0]), nnz * sizeof(T));
+    file.write(reinterpret_cast<const char*>(indptr.data()), (rows + 1) * sizeof(int));
+    file.write(reinterpret_cast<const char*>(indices.data()), nnz * sizeof(int));
+    file.write(reinterpret_cast<const char*>(data.data()), nnz * sizeof(T));
 
     CloseOutput(file, file_name);
 }
@@ -196,9 +196,9 @@ SparseMatrix<T> ReadBinaryMat(const std::string& file_name)
     std::vector<int> indices(nnz);
     std::vector<T> data(nnz);
 
-    file.read(reinterpret_cast<char*>(&indptr[0]), (rows + 1) * sizeof(int));
-    file.read(reinterpret_cast<char*>(&indices[0]), nnz * sizeof(int));
-    file.read(reinterpret_cast<char*>(&data[0]), nnz * sizeof(T));
+    file.read(reinterpret_cast<char*>(indptr.data()), (rows + 1) * sizeof(int));
+    file.read(reinterpret_cast<char*>(indices.data()), nnz * sizeof(int));
+    file.read(reinterpret_cast<char*>(data.data()), nnz * sizeof(T));
 
     file.close();
 
@@ -446,7 +446,7 @@ SparseMatrix<T> ReadTable(const std::string& file_name)
     file.close();
 
     const int rows = indptr.size() - 1;
-    const int cols = *std::max_element(begin(indices), end(indices)) + 1;
+    const int cols = indices.empty() ? 0 : *std::max_element(begin(indices), end(indices)) + 1;
 
     std::vector<T> data(indices.size(), 1);
 
-- 
2.43.0


From 6a8896ad3966279fb3801ac6a0b61e5852df5baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 04/48] fix: parser readers reject unreadable, incomplete or
 inconsistent files

Read errors were taken for the end of the file, files shorter than their
header announces were completed with zeros or uninitialised memory, and
indices outside of the matrix were accepted.
---
 include/parser.hpp | 155 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 130 insertions(+), 25 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 04ba421..a7792c8 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -6,7 +6,9 @@
 #include <vector>
 #include <assert.h>
 #include <fstream>
+#include <limits>
 
+#include "utilities.hpp"
 #include "vector.hpp"
 #include "sparsematrix.hpp"
 #include "coomatrix.hpp"
@@ -14,6 +16,56 @@
 namespace linalgcpp
 {
 
+/*! @brief Finish a file that was read, throw if it could not be read
+    @param file file to close
+    @param file_name name of the file
+*/
+inline
+void CloseInput(std::ifstream& file, const std::string& file_name)
+{
+    linalgcpp_verify(!file.bad(), "Failed to read file: " + file_name);
+
+    file.close();
+}
+
+/*! @brief Throw if indices read from a file are not valid matrix indices
+    @param i row index
+    @param j column index
+    @param file_name name of the file
+*/
+inline
+void VerifyIndices(int i, int j, const std::string& file_name)
+{
+    const int max_index = std::numeric_limits<int>::max();
+
+    linalgcpp_verify(i >= 0 && j >= 0 && i < max_index && j < max_index,
+                     "Invalid index in file: " + file_name);
+}
+
+/*! @brief Throw if arrays read from a file do not form a valid CSR matrix
+    @param indptr row pointers
+    @param indices column indices
+    @param rows number of rows
+    @param cols number of columns
+    @param file_name name of the file
+*/
+inline
+void VerifyCSR(const std::vector<int>& indptr, const std::vector<int>& indices,
+               int rows, int cols, const std::string& file_name)
+{
+    bool valid = rows >= 0 && cols >= 0 && indptr.size() == rows + 1u &&
+                 indptr.front() == 0 && indptr.back() >= 0 &&
+                 static_cast<size_t>(indptr.back()) == indices.size() &&
+                 std::is_sorted(std::begin(indptr), std::end(indptr));
+
+    for (auto index : indices)
+    {
+        valid = valid && index >= 0 && index < cols;
+    }
+
+    linalgcpp_verify(valid, "Invalid matrix in file: " + file_name);
+}
+
 /*! @brief Finish a written file, throw if any part of it could not be written
     @param file file to close
     @param file_name name of the file
@@ -50,7 +102,7 @@ std::vector<T> ReadText(const std::string& file_name)
         data.push_back(val);
     }
 
-    file.close();
+    CloseInput(file, file_name);
 
     return data;
 }
@@ -121,11 +173,14 @@ std::vector<T> ReadBinaryVect(const std::string& file_name)
 
     size_t size = 0;
     file.read(reinterpret_cast<char*>(&size), sizeof(size));
+    linalgcpp_verify(file.good(), "Incomplete file: " + file_name);
 
     std::vector<T> vect(size);
 
     file.read(reinterpret_cast<char*>(vect.data()), size * sizeof(T));
-    file.close();
+    linalgcpp_verify(file.good(), "Incomplete file: " + file_name);
+
+    CloseInput(file, file_name);
 
     return vect;
 }
@@ -184,13 +239,18 @@ SparseMatrix<T> ReadBinaryMat(const std::string& file_name)
         throw std::runtime_error("Failed to open file: " + file_name);
     }
 
-    size_t rows;
-    size_t cols;
-    size_t nnz;
+    size_t rows = 0;
+    size_t cols = 0;
+    size_t nnz = 0;
 
     file.read(reinterpret_cast<char*>(&rows), sizeof(rows));
     file.read(reinterpret_cast<char*>(&cols), sizeof(cols));
     file.read(reinterpret_cast<char*>(&nnz), sizeof(nnz));
+    linalgcpp_verify(file.good(), "Incomplete file: " + file_name);
+
+    const size_t max_size = std::numeric_limits<int>::max();
+    linalgcpp_verify(rows < max_size && cols <= max_size && nnz <= max_size,
+                     "Invalid matrix in file: " + file_name);
 
     std::vector<int> indptr(rows + 1);
     std::vector<int> indices(nnz);
@@ -199,8 +259,11 @@ SparseMatrix<T> ReadBinaryMat(const std::string& file_name)
     file.read(reinterpret_cast<char*>(indptr.data()), (rows + 1) * sizeof(int));
     file.read(reinterpret_cast<char*>(indices.data()), nnz * sizeof(int));
     file.read(reinterpret_cast<char*>(data.data()), nnz * sizeof(T));
+    linalgcpp_verify(file.good(), "Incomplete file: " + file_name);
 
-    file.close();
+    CloseInput(file, file_name);
+
+    VerifyCSR(indptr, indices, rows, cols, file_name);
 
     return SparseMatrix<T>(std::move(indptr), std::move(indices), std::move(data), rows, cols);
 }
@@ -234,6 +297,8 @@ SparseMatrix<T> ReadAdjList(const std::string& file_name, bool symmetric = false
 
     while (file >> i >> j)
     {
+        VerifyIndices(i, j, file_name);
+
         coo.Add(i, j, val);
 
         if (symmetric && i != j)
@@ -242,7 +307,7 @@ SparseMatrix<T> ReadAdjList(const std::string& file_name, bool symmetric = false
         }
     }
 
-    file.close();
+    CloseInput(file, file_name);
 
     return coo.ToSparse();
 }
@@ -274,6 +339,8 @@ SparseMatrix<T> ReadGraphList(const std::string& file_name)
     {
         if (i < j)
         {
+            VerifyIndices(i, j, file_name);
+
             coo.Add(j, i, -1);
             coo.Add(i, j, -1);
             coo.Add(i, i, 1);
@@ -281,7 +348,7 @@ SparseMatrix<T> ReadGraphList(const std::string& file_name)
         }
     }
 
-    file.close();
+    CloseInput(file, file_name);
 
     return coo.ToSparse();
 }
@@ -354,6 +421,8 @@ SparseMatrix<T> ReadCooList(const std::string& file_name, bool symmetric = false
 
     while (file >> i >> j >> val)
     {
+        VerifyIndices(i, j, file_name);
+
         coo.Add(i, j, val);
 
         if (symmetric && i != j)
@@ -362,7 +431,7 @@ SparseMatrix<T> ReadCooList(const std::string& file_name, bool symmetric = false
         }
     }
 
-    file.close();
+    CloseInput(file, file_name);
 
     return coo.ToSparse();
 }
@@ -437,13 +506,14 @@ SparseMatrix<T> ReadTable(const std::string& file_name)
 
         for (int index; stream >> index; )
         {
+            VerifyIndices(0, index, file_name);
             indices.push_back(index);
         }
 
         indptr.push_back(indices.size());
     }
 
-    file.close();
+    CloseInput(file, file_name);
 
     const int rows = indptr.size() - 1;
     const int cols = indices.empty() ? 0 : *std::max_element(begin(indices), end(indices)) + 1;
@@ -505,20 +575,25 @@ SparseMatrix<T> ReadCSR(const std::string& file_name)
         throw std::runtime_error("Failed to open file: " + file_name);
     }
 
-    size_t rows;
-    size_t cols;
+    int rows = 0;
+    int cols = 0;
 
     file >> rows >> cols;
 
+    linalgcpp_verify(!file.fail() && rows >= 0 && rows < std::numeric_limits<int>::max() && cols >= 0,
+                     "Invalid matrix in file: " + file_name);
+
     std::vector<int> indptr(rows + 1);
 
-    for (size_t i = 0; i < rows + 1; ++i)
+    for (auto& ptr : indptr)
     {
-        file >> indptr[i];
+        file >> ptr;
     }
 
     int nnz = indptr.back();
 
+    linalgcpp_verify(!file.fail() && nnz >= 0, "Invalid matrix in file: " + file_name);
+
     std::vector<int> indices(nnz);
     std::vector<T> data(nnz);
 
@@ -532,7 +607,11 @@ SparseMatrix<T> ReadCSR(const std::string& file_name)
         file >> data[i];
     }
 
-    file.close();
+    linalgcpp_verify(!file.fail(), "Incomplete file: " + file_name);
+
+    CloseInput(file, file_name);
+
+    VerifyCSR(indptr, indices, rows, cols, file_name);
 
     return SparseMatrix<T>(std::move(indptr), std::move(indices), std::move(data),
                            rows, cols);
@@ -611,23 +690,34 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
         symmetric |= (line.find("symmetric") != std::string::npos);
     }
 
-    int rows;
-    int cols;
-    int nnz;
+    int rows = 0;
+    int cols = 0;
+    int nnz = 0;
 
     // First line after comments contains size info
-    std::istringstream(line) >> rows >> cols >> nnz;
+    std::istringstream header(line);
+    header >> rows >> cols >> nnz;
+
+    linalgcpp_verify(!header.fail() && nnz >= 0, "Invalid header in file: " + file_name);
+    VerifyIndices(rows, cols, file_name);
 
     CooMatrix<T> coo(rows, cols);
     coo.Reserve(nnz);
 
     int base = 1;
+    int count = 0;
     int i;
     int j;
     T val;
 
     while (file >> i >> j >> val)
     {
+        linalgcpp_verify(i >= base && i - base < rows && j >= base && j - base < cols,
+                         "Invalid index in file: " + file_name);
+        linalgcpp_verify(!symmetric || (j - base < rows && i - base < cols),
+                         "Invalid index in file: " + file_name);
+        count++;
+
         coo.Add(i - base, j - base, val);
 
         if (symmetric && i != j)
@@ -636,7 +726,9 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
         }
     }
 
-    file.close();
+    CloseInput(file, file_name);
+
+    linalgcpp_verify(count == nnz, "Number of entries does not match header in file: " + file_name);
 
     return coo.ToSparse();
 }
@@ -669,23 +761,34 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
         symmetric |= (line.find("symmetric") != std::string::npos);
     }
 
-    int rows;
-    int cols;
-    int nnz;
+    int rows = 0;
+    int cols = 0;
+    int nnz = 0;
 
     // First line after comments contains size info
-    std::istringstream(line) >> rows >> cols >> nnz;
+    std::istringstream header(line);
+    header >> rows >> cols >> nnz;
+
+    linalgcpp_verify(!header.fail() && nnz >= 0, "Invalid header in file: " + file_name);
+    VerifyIndices(rows, cols, file_name);
 
     CooMatrix<T> coo(rows, cols);
     coo.Reserve(nnz);
 
     int base = 1;
+    int count = 0;
     int i;
     int j;
     T val = 1.0;
 
     while (file >> i >> j)
     {
+        linalgcpp_verify(i >= base && i - base < rows && j >= base && j - base < cols,
+                         "Invalid index in file: " + file_name);
+        linalgcpp_verify(!symmetric || (j - base < rows && i - base < cols),
+                         "Invalid index in file: " + file_name);
+        count++;
+
         coo.Add(i - base, j - base, val);
 
         if (symmetric && i != j)
@@ -694,7 +797,9 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
         }
     }
 
-    file.close();
+    CloseInput(file, file_name);
+
+    linalgcpp_verify(count == nnz, "Number of entries does not match header in file: " + file_name);
 
     return coo.ToSparse();
 }
-- 
2.43.0


From 1f89cf154e416b906b84896f8cb657402c87bb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 05/48] fix: copies and resizes report a failed allocation
 instead of ending the program

Copy constructors and Vector's copy assignments allocate, so they cannot be
noexcept.  DenseMatrix::SetSize and EigenSolver recorded the new size before
the storage existed, leaving an object that claims memory it does not own
when the allocation fails.
---
 include/blockmatrix.hpp                      |  4 ++--
 include/blockoperator.hpp                    |  2 +-
 include/blockvector.hpp                      |  4 ++--
 include/coomatrix.hpp                        |  4 ++--
 include/densematrix.hpp                      |  2 +-
 include/lilmatrix.hpp                        |  4 ++--
 include/solvers.hpp                          |  8 ++++----
 include/sparsematrix.hpp                     |  4 ++--
 include/vector.hpp                           | 12 ++++++------
 modules/parlinalgcpp/include/parmatrix.hpp   |  2 +-
 modules/parlinalgcpp/include/parsolvers.hpp  |  8 ++++----
 modules/parlinalgcpp/src/parmatrix.cpp       |  2 +-
 modules/parlinalgcpp/src/parsolvers.cpp      |  8 ++++----
 modules/sparsesolver/include/sparsesolve.hpp |  2 +-
 modules/sparsesolver/src/sparsesolve.cpp     |  2 +-
 src/blockoperator.cpp                        |  2 +-
 src/densematrix.cpp                          |  6 +++---
 src/eigensolver.cpp                          |  3 ++-
 src/solvers.cpp                              |  6 +++---
 19 files changed, 43 insertions(+), 42 deletions(-)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index 35d8b28..228257d 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -40,7 +40,7 @@ class BlockMatrix : public Operator
         BlockMatrix(std::vector<int> row_offsets, std::vector<int> col_offsets);
 
         /*! @brief Copy deconstructor */
-        BlockMatrix(const BlockMatrix<T>& other) noexcept;
+        BlockMatrix(const BlockMatrix<T>& other);
 
         /*! @brief Move deconstructor */
         BlockMatrix(BlockMatrix<T>&& other) noexcept;
@@ -138,7 +138,7 @@ BlockMatrix<T>::BlockMatrix(std::vector<int> row_offsets, std::vector<int> col_o
 }
 
 template <typename T>
-BlockMatrix<T>::BlockMatrix(const BlockMatrix<T>& other) noexcept
+BlockMatrix<T>::BlockMatrix(const BlockMatrix<T>& other)
     : Operator(other), row_offsets_(other.row_offsets_), col_offsets_(other.col_offsets_),
       A_(other.A_)
 {
diff --git a/include/blockoperator.hpp b/include/blockoperator.hpp
index c5fbf1a..4c4c151 100644
--- a/include/blockoperator.hpp
+++ b/include/blockoperator.hpp
@@ -38,7 +38,7 @@ class BlockOperator : public Operator
         BlockOperator(std::vector<int> row_offsets, std::vector<int> col_offsets);
 
         /*! @brief Copy deconstructor */
-        BlockOperator(const BlockOperator& other) noexcept;
+        BlockOperator(const BlockOperator& other);
 
         /*! @brief Move deconstructor */
         BlockOperator(BlockOperator&& other) noexcept;
diff --git a/include/blockvector.hpp b/include/blockvector.hpp
index 9751a64..5ae487a 100644
--- a/include/blockvector.hpp
+++ b/include/blockvector.hpp
@@ -36,7 +36,7 @@ class BlockVector : public Vector<T>
         explicit BlockVector(const VectorView<T>& data, std::vector<int> offsets);
 
         /*! @brief Copy deconstructor */
-        BlockVector(const BlockVector<T>& other) noexcept;
+        BlockVector(const BlockVector<T>& other);
 
         /*! @brief Move deconstructor */
         BlockVector(BlockVector<T>&& other) noexcept;
@@ -93,7 +93,7 @@ BlockVector<T>::BlockVector(const VectorView<T>& data, std::vector<int> offsets)
 }
 
 template <typename T>
-BlockVector<T>::BlockVector(const BlockVector<T>& other) noexcept
+BlockVector<T>::BlockVector(const BlockVector<T>& other)
     : Vector<T>(other), offsets_(other.offsets_)
 {
 
diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index b6264c4..b4366e1 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -48,7 +48,7 @@ class CooMatrix : public Operator
         CooMatrix(int rows, int cols);
 
         /*! @brief Copy Constructor */
-        CooMatrix(const CooMatrix& other) noexcept;
+        CooMatrix(const CooMatrix& other);
 
         /*! @brief Move Constructor */
         CooMatrix(CooMatrix&& other) noexcept;
@@ -273,7 +273,7 @@ CooMatrix<T>::CooMatrix(int rows, int cols)
 }
 
 template <typename T>
-CooMatrix<T>::CooMatrix(const CooMatrix& other) noexcept
+CooMatrix<T>::CooMatrix(const CooMatrix& other)
     : Operator(other), size_set_(other.size_set_), entries_(other.entries_)
 {
 
diff --git a/include/densematrix.hpp b/include/densematrix.hpp
index b1d36e4..af328e3 100644
--- a/include/densematrix.hpp
+++ b/include/densematrix.hpp
@@ -52,7 +52,7 @@ class DenseMatrix : public Operator
         DenseMatrix(int rows, int cols, std::vector<double> data);
 
         /*! @brief Copy Constructor */
-        DenseMatrix(const DenseMatrix& other) noexcept;
+        DenseMatrix(const DenseMatrix& other);
 
         /*! @brief Move constructor */
         DenseMatrix(DenseMatrix&& other) noexcept;
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index dd181e6..b8f8bb6 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -47,7 +47,7 @@ class LilMatrix : public Operator
         LilMatrix(int rows, int cols);
 
         /*! @brief Copy Constructor */
-        LilMatrix(const LilMatrix& other) noexcept;
+        LilMatrix(const LilMatrix& other);
 
         /*! @brief Move Constructor */
         LilMatrix(LilMatrix&& other) noexcept;
@@ -198,7 +198,7 @@ LilMatrix<T>::LilMatrix(int rows, int cols)
 }
 
 template <typename T>
-LilMatrix<T>::LilMatrix(const LilMatrix& other) noexcept
+LilMatrix<T>::LilMatrix(const LilMatrix& other)
     : Operator(other),
       size_set_(other.size_set_), entries_(other.entries_)
 {
diff --git a/include/solvers.hpp b/include/solvers.hpp
index 63ee2d1..6ed2332 100644
--- a/include/solvers.hpp
+++ b/include/solvers.hpp
@@ -18,7 +18,7 @@ class Solver : public Operator
         Solver();
 
         /*! @brief Copy Constructor */
-        Solver(const Solver& other) noexcept = default;
+        Solver(const Solver& other) = default;
 
         /*! @brief Move Constructor */
         Solver(Solver&& other) noexcept = default;
@@ -121,7 +121,7 @@ class PCGSolver : public Solver
                  double (*Dot)(const VectorView<double>&, const VectorView<double>&) = linalgcpp::InnerProduct);
 
         /*! @brief Copy Constructor */
-        PCGSolver(const PCGSolver& other) noexcept;
+        PCGSolver(const PCGSolver& other);
 
         /*! @brief Move Constructor */
         PCGSolver(PCGSolver&& other) noexcept;
@@ -172,7 +172,7 @@ class MINRESSolver : public Solver
                      double (*Dot)(const VectorView<double>&, const VectorView<double>&) = linalgcpp::InnerProduct);
 
         /*! @brief Copy Constructor */
-        MINRESSolver(const MINRESSolver& other) noexcept;
+        MINRESSolver(const MINRESSolver& other);
 
         /*! @brief Move Constructor */
         MINRESSolver(MINRESSolver&& other) noexcept;
@@ -220,7 +220,7 @@ class PMINRESSolver : public Solver
                  double (*Dot)(const VectorView<double>&, const VectorView<double>&) = linalgcpp::InnerProduct);
 
         /*! @brief Copy Constructor */
-        PMINRESSolver(const PMINRESSolver& other) noexcept;
+        PMINRESSolver(const PMINRESSolver& other);
 
         /*! @brief Move Constructor */
         PMINRESSolver(PMINRESSolver&& other) noexcept;
diff --git a/include/sparsematrix.hpp b/include/sparsematrix.hpp
index 8a79419..2e40caf 100644
--- a/include/sparsematrix.hpp
+++ b/include/sparsematrix.hpp
@@ -61,7 +61,7 @@ class SparseMatrix : public Operator
         explicit SparseMatrix(std::vector<T> diag);
 
         /*! @brief Copy Constructor */
-        SparseMatrix(const SparseMatrix<T>& other) noexcept;
+        SparseMatrix(const SparseMatrix<T>& other);
 
         /*! @brief Move constructor */
         SparseMatrix(SparseMatrix<T>&& other) noexcept;
@@ -492,7 +492,7 @@ SparseMatrix<T>::SparseMatrix(std::vector<T> diag)
 }
 
 template <typename T>
-SparseMatrix<T>::SparseMatrix(const SparseMatrix<T>& other) noexcept
+SparseMatrix<T>::SparseMatrix(const SparseMatrix<T>& other)
     : Operator(other),
       indptr_(other.indptr_), indices_(other.indices_), data_(other.data_)
 {
diff --git a/include/vector.hpp b/include/vector.hpp
index e57d787..6fe692d 100644
--- a/include/vector.hpp
+++ b/include/vector.hpp
@@ -52,7 +52,7 @@ class Vector : public VectorView<T>
         explicit Vector(std::vector<T> vect);
 
         /*! @brief Copy Constructor */
-        Vector(const Vector& vect) noexcept;
+        Vector(const Vector& vect);
 
         /*! @brief Move constructor
             @param vect the vector to move
@@ -83,12 +83,12 @@ class Vector : public VectorView<T>
             @param vect the vector to copy
         */
 
-        Vector& operator=(const Vector<T>& vect) noexcept;
+        Vector& operator=(const Vector<T>& vect);
 
         /*! @brief Sets this vector equal to another
             @param vect the vector to copy
         */
-        Vector& operator=(const VectorView<T>& vect) noexcept;
+        Vector& operator=(const VectorView<T>& vect);
 
         /*! @brief Sets this vector equal to another
             @param vect the vector to copy
@@ -159,7 +159,7 @@ Vector<T>::Vector(std::vector<T> vect)
 }
 
 template <typename T>
-Vector<T>::Vector(const Vector<T>& vect) noexcept
+Vector<T>::Vector(const Vector<T>& vect)
     : data_(vect.data_)
 {
     VectorView<T>::SetData(data_.data(), data_.size());
@@ -200,7 +200,7 @@ void Vector<T>::SetSize(int size, T val)
 }
 
 template <typename T>
-Vector<T>& Vector<T>::operator=(const Vector<T>& vect) noexcept
+Vector<T>& Vector<T>::operator=(const Vector<T>& vect)
 {
     data_.resize(vect.size());
     std::copy(std::begin(vect.data_), std::end(vect.data_), std::begin(data_));
@@ -211,7 +211,7 @@ Vector<T>& Vector<T>::operator=(const Vector<T>& vect) noexcept
 }
 
 template <typename T>
-Vector<T>& Vector<T>::operator=(const VectorView<T>& vect) noexcept
+Vector<T>& Vector<T>::operator=(const VectorView<T>& vect)
 {
     data_.resize(vect.size());
     std::copy(std::begin(vect), std::end(vect), std::begin(data_));
diff --git a/modules/parlinalgcpp/include/parmatrix.hpp b/modules/parlinalgcpp/include/parmatrix.hpp
index 193aa7f..7c4339f 100644
--- a/modules/parlinalgcpp/include/parmatrix.hpp
+++ b/modules/parlinalgcpp/include/parmatrix.hpp
@@ -95,7 +95,7 @@ class ParMatrix: public ParOperator
                   std::vector<HYPRE_Int> col_map);
 
         /*! @brief Copy Constructor */
-        ParMatrix(const ParMatrix& other) noexcept;
+        ParMatrix(const ParMatrix& other);
 
         /*! @brief Move Constructor */
         ParMatrix(ParMatrix&& other) noexcept;
diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index 104de7b..4b66745 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -148,7 +148,7 @@ class BoomerAMG: public ParSolver
                   size_t max_iter = 1,
                   double tol = 0.0, bool verbose = false);
 
-        BoomerAMG(const BoomerAMG& other) noexcept;
+        BoomerAMG(const BoomerAMG& other);
         BoomerAMG(BoomerAMG&& other) noexcept;
         BoomerAMG& operator=(BoomerAMG other) noexcept;
 
@@ -168,7 +168,7 @@ class ParaSails: public ParSolver
                   double filter = 0.1,
                   int max_levels = 1);
 
-        ParaSails(const ParaSails& other) noexcept;
+        ParaSails(const ParaSails& other);
         ParaSails(ParaSails&& other) noexcept;
         ParaSails& operator=(ParaSails other) noexcept;
 
@@ -192,7 +192,7 @@ class ParCG: public ParSolver
         ParCG(ParMatrix A, const ParSolver& M, size_t max_iter = 1000,
               double tol = 1e-8, bool verbose = false);
 
-        ParCG(const ParCG& other) noexcept;
+        ParCG(const ParCG& other);
         ParCG(ParCG&& other) noexcept;
         ParCG& operator=(ParCG other) noexcept;
 
@@ -210,7 +210,7 @@ class ParDiagScale: public ParSolver
         ParDiagScale(ParMatrix A, size_t max_iter = 1000,
                      double tol = 1e-8, bool verbose = false);
 
-        ParDiagScale(const ParDiagScale& other) noexcept;
+        ParDiagScale(const ParDiagScale& other);
         ParDiagScale(ParDiagScale&& other) noexcept;
         ParDiagScale& operator=(ParDiagScale other) noexcept;
 
diff --git a/modules/parlinalgcpp/src/parmatrix.cpp b/modules/parlinalgcpp/src/parmatrix.cpp
index 9ec0582..e808cad 100644
--- a/modules/parlinalgcpp/src/parmatrix.cpp
+++ b/modules/parlinalgcpp/src/parmatrix.cpp
@@ -119,7 +119,7 @@ ParMatrix::~ParMatrix() noexcept
     HypreDestroy();
 }
 
-ParMatrix::ParMatrix(const ParMatrix& other) noexcept
+ParMatrix::ParMatrix(const ParMatrix& other)
     : ParOperator(other),
       A_(nullptr), diag_(other.diag_), offd_(other.offd_),
       col_map_(other.col_map_)
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 7c6a2da..2135153 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -142,7 +142,7 @@ BoomerAMG::BoomerAMG(ParMatrix A, size_t max_iter,
     HypreSetup();
 }
 
-BoomerAMG::BoomerAMG(const BoomerAMG& other) noexcept
+BoomerAMG::BoomerAMG(const BoomerAMG& other)
     : ParSolver(other)
 {
 }
@@ -187,7 +187,7 @@ ParaSails::ParaSails(ParMatrix A, bool verbose,
     HypreSetup();
 }
 
-ParaSails::ParaSails(const ParaSails& other) noexcept
+ParaSails::ParaSails(const ParaSails& other)
     : ParSolver(other)
 {
 }
@@ -260,7 +260,7 @@ ParCG::ParCG(ParMatrix A, const ParSolver& M, size_t max_iter,
 }
 
 
-ParCG::ParCG(const ParCG& other) noexcept
+ParCG::ParCG(const ParCG& other)
     : ParSolver(other)
 {
     HypreSetup();
@@ -302,7 +302,7 @@ ParDiagScale::ParDiagScale(ParMatrix A, size_t max_iter,
     HypreSetup();
 }
 
-ParDiagScale::ParDiagScale(const ParDiagScale& other) noexcept
+ParDiagScale::ParDiagScale(const ParDiagScale& other)
     : ParSolver(other)
 {
 }
diff --git a/modules/sparsesolver/include/sparsesolve.hpp b/modules/sparsesolver/include/sparsesolve.hpp
index 6ee7c64..ec4f0a8 100644
--- a/modules/sparsesolver/include/sparsesolve.hpp
+++ b/modules/sparsesolver/include/sparsesolve.hpp
@@ -13,7 +13,7 @@ class SparseSolver : public linalgcpp::Operator
         explicit SparseSolver(linalgcpp::SparseMatrix<double> A);
 
         /// @warning Avoid copy since this will have to refactor A
-        SparseSolver(const SparseSolver& other) noexcept;
+        SparseSolver(const SparseSolver& other);
 
         SparseSolver(SparseSolver&& other) noexcept;
         SparseSolver& operator=(SparseSolver other) noexcept;
diff --git a/modules/sparsesolver/src/sparsesolve.cpp b/modules/sparsesolver/src/sparsesolve.cpp
index b354fd5..42148de 100644
--- a/modules/sparsesolver/src/sparsesolve.cpp
+++ b/modules/sparsesolver/src/sparsesolve.cpp
@@ -17,7 +17,7 @@ SparseSolver::SparseSolver(linalgcpp::SparseMatrix<double> A)
     }
 }
 
-SparseSolver::SparseSolver(const SparseSolver& other) noexcept
+SparseSolver::SparseSolver(const SparseSolver& other)
     : Operator(other), A_(other.A_), control_(other.control_), info_(other.info_)
 {
     if (A_.nnz() > 0)
diff --git a/src/blockoperator.cpp b/src/blockoperator.cpp
index a7cc0a4..b2b0c9a 100644
--- a/src/blockoperator.cpp
+++ b/src/blockoperator.cpp
@@ -29,7 +29,7 @@ BlockOperator::BlockOperator(std::vector<int> row_offsets, std::vector<int> col_
 
 }
 
-BlockOperator::BlockOperator(const BlockOperator& other) noexcept
+BlockOperator::BlockOperator(const BlockOperator& other)
     : Operator(other), 
       row_offsets_(other.row_offsets_), col_offsets_(other.col_offsets_),
       A_(other.A_), x_(other.x_), y_(other.y_)
diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 947f6c8..9430b81 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -52,7 +52,7 @@ DenseMatrix::DenseMatrix(int rows, int cols, std::vector<double> data)
     assert(static_cast<int>(data_.size()) == rows * cols);
 }
 
-DenseMatrix::DenseMatrix(const DenseMatrix& other) noexcept
+DenseMatrix::DenseMatrix(const DenseMatrix& other)
     : Operator(other), data_(other.data_)
 {
 }
@@ -92,9 +92,9 @@ void DenseMatrix::SetSize(int rows, int cols)
     assert(rows >= 0);
     assert(cols >= 0);
 
+    data_.resize(rows * cols);
     rows_ = rows;
     cols_ = cols;
-    data_.resize(rows * cols);
 }
 
 void DenseMatrix::SetSize(int size, double val)
@@ -107,9 +107,9 @@ void DenseMatrix::SetSize(int rows, int cols, double val)
     assert(rows >= 0);
     assert(cols >= 0);
 
+    data_.resize(rows * cols, val);
     rows_ = rows;
     cols_ = cols;
-    data_.resize(rows * cols, val);
 }
 
 
diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index f35eecf..d245841 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -136,7 +136,6 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
 void EigenSolver::AllocateWorkspace(int size)
 {
     A_.resize(size * size, 0.0);
-    alloc_size_ = size;
 
     int lwork = -1;
     double wkopt;
@@ -166,6 +165,8 @@ void EigenSolver::AllocateWorkspace(int size)
     iblock_.resize(size, 1);
     isplit_.resize(size, 0);
     iwork_.resize(size);
+
+    alloc_size_ = size;
 }
 
 } // namespace linalgcpp
diff --git a/src/solvers.cpp b/src/solvers.cpp
index ba2fe0b..341a985 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -113,7 +113,7 @@ PCGSolver::PCGSolver(const Operator& A, const Operator& M, int max_iter,
     assert(M_->Rows() == M_->Cols());
 }
 
-PCGSolver::PCGSolver(const PCGSolver& other) noexcept
+PCGSolver::PCGSolver(const PCGSolver& other)
     : Solver(other), M_(other.M_), Ap_(other.Ap_), r_(other.r_), p_(other.p_),
       z_(other.z_)
 {
@@ -251,7 +251,7 @@ MINRESSolver::MINRESSolver(const Operator& A, int max_iter, double rel_tol, doub
     assert(A_->Rows() == A_->Cols());
 }
 
-MINRESSolver::MINRESSolver(const MINRESSolver& other) noexcept
+MINRESSolver::MINRESSolver(const MINRESSolver& other)
     : Solver(other), w0_(other.w0_), w1_(other.w1_), v0_(other.v0_),
       v1_(other.v1_), q_(other.q_)
 {
@@ -395,7 +395,7 @@ PMINRESSolver::PMINRESSolver(const Operator& A, const Operator& M, int max_iter,
     assert(M_->Rows() == M_->Cols());
 }
 
-PMINRESSolver::PMINRESSolver(const PMINRESSolver& other) noexcept
+PMINRESSolver::PMINRESSolver(const PMINRESSolver& other)
     : Solver(other), M_(other.M_), w0_(other.w0_), w1_(other.w1_),
       v0_(other.v0_), v1_(other.v1_), u1_(other.u1_), q_(other.q_)
 {
-- 
2.43.0


From 974611db9a8f4cf64136db58a031730290c78281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 06/48] fix: LilMatrix and CooMatrix keep a usable state in
 every assembly order

LilMatrix::SetSize gives every row storage, an unsized LilMatrix reports the
size its largest entry implies, ToSparse leaves the (shared) entries alone,
MultAT accepts rectangular matrices, EliminateZeros() removes zeros, and a
moved-to matrix no longer reads an uninitialized flag.
---
 include/coomatrix.hpp |  7 ++++---
 include/lilmatrix.hpp | 25 +++++++++++++------------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index b4366e1..90823e0 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -281,6 +281,7 @@ CooMatrix<T>::CooMatrix(const CooMatrix& other)
 
 template <typename T>
 CooMatrix<T>::CooMatrix(CooMatrix&& other) noexcept
+    : size_set_(false)
 {
     swap(*this, other);
 }
@@ -654,8 +655,8 @@ void CooMatrix<T>::Mult(const VectorView<double>& input, VectorView<double> outp
 template <typename T>
 void CooMatrix<T>::MultAT(const VectorView<double>& input, VectorView<double> output) const
 {
-    assert(Rows() == output.size());
-    assert(Cols() == input.size());
+    assert(Rows() == input.size());
+    assert(Cols() == output.size());
 
     output = 0;
 
@@ -692,7 +693,7 @@ void CooMatrix<T>::EliminateZeros(double tolerance)
     auto compare = [&] (const std::tuple<int, int, T>& entry)
     {
         const double val = std::get<2>(entry);
-        return std::abs(val) < tolerance;
+        return std::abs(val) <= tolerance;
     };
 
     entries_.erase(std::remove_if(std::begin(entries_), std::end(entries_),
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index b8f8bb6..957a7d5 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -175,7 +175,7 @@ class LilMatrix : public Operator
 
         bool size_set_;
 
-        mutable std::vector<std::list<std::pair<int, T>>> entries_;
+        std::vector<std::list<std::pair<int, T>>> entries_;
 };
 
 template <typename T>
@@ -207,6 +207,7 @@ LilMatrix<T>::LilMatrix(const LilMatrix& other)
 
 template <typename T>
 LilMatrix<T>::LilMatrix(LilMatrix&& other) noexcept
+    : size_set_(false)
 {
     swap(*this, other);
 }
@@ -249,6 +250,8 @@ int LilMatrix<T>::Cols() const
 template <typename T>
 void LilMatrix<T>::SetSize(int rows, int cols)
 {
+    entries_.resize(rows);
+
     size_set_ = true;
 
     rows_ = rows;
@@ -364,11 +367,6 @@ SparseMatrix<U> LilMatrix<T>::ToSparse() const
 
     const int size = entries_.size();
 
-    for (auto& row : entries_)
-    {
-        row.sort();
-    }
-
     const int nnz = entries_.size();
 
     std::vector<int> indptr(rows + 1, 0);
@@ -384,7 +382,10 @@ SparseMatrix<U> LilMatrix<T>::ToSparse() const
     {
         const int current_row = indptr[i];
 
-        for (const auto& node : entries_[i])
+        std::vector<std::pair<int, T>> row(std::begin(entries_[i]), std::end(entries_[i]));
+        std::sort(std::begin(row), std::end(row));
+
+        for (const auto& node : row)
         {
             const int& j = node.first;
             const T& val = node.second;
@@ -434,8 +435,8 @@ void LilMatrix<T>::Mult(const VectorView<double>& input, VectorView<double> outp
 template <typename T>
 void LilMatrix<T>::MultAT(const VectorView<double>& input, VectorView<double> output) const
 {
-    assert(Rows() == output.size());
-    assert(Cols() == input.size());
+    assert(Rows() == input.size());
+    assert(Cols() == output.size());
 
     output = 0;
 
@@ -486,7 +487,7 @@ void LilMatrix<T>::EliminateZeros(double tolerance)
         row.erase(std::remove_if(std::begin(row), std::end(row),
                                  [&](const std::pair<int, double>& entry)
         {
-            return std::abs(entry.second) < tolerance;
+            return std::abs(entry.second) <= tolerance;
         }),
         std::end(row));
     }
@@ -500,7 +501,7 @@ std::tuple<int, int> LilMatrix<T>::FindSize() const
         return std::tuple<int, int> {rows_, cols_};
     }
 
-    const int rows = entries_.size();
+    const int rows = std::max<int>(1, entries_.size());
     int cols = 0;
 
     for (const auto& row : entries_)
@@ -511,7 +512,7 @@ std::tuple<int, int> LilMatrix<T>::FindSize() const
         }
     }
 
-    return std::tuple<int, int> {rows + 1, cols + 1};
+    return std::tuple<int, int> {rows, cols + 1};
 }
 
 } // namespace linalgcpp
-- 
2.43.0


From c23ff3b1c237da1cfc81c03a87d82c68c6a234c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 07/48] fix: BlockMatrix::Transpose transposes its blocks and
 skips unset ones

---
 include/blockmatrix.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index 228257d..d5d3d47 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -214,7 +214,14 @@ BlockMatrix<T> BlockMatrix<T>::Transpose() const
     {
         for (int j = 0; j < col_blocks; ++j)
         {
-            transpose.SetBlock(j, i, GetBlock(i, j));
+            const auto& mat = A_[i][j];
+
+            if (mat.Rows() == 0 || mat.Cols() == 0)
+            {
+                continue;
+            }
+
+            transpose.SetBlock(j, i, mat.Transpose());
         }
     }
 
-- 
2.43.0


From 540c214d0cf0dfe610cc1d75f09844c4d2e0fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 08/48] fix: BlockOperator products use local scratch

The mutable members made two products with the same (const) operator
interfere with each other.
---
 include/blockoperator.hpp |  5 -----
 src/blockoperator.cpp     | 45 +++++++++++++++++++--------------------
 2 files changed, 22 insertions(+), 28 deletions(-)

diff --git a/include/blockoperator.hpp b/include/blockoperator.hpp
index 4c4c151..ad9a542 100644
--- a/include/blockoperator.hpp
+++ b/include/blockoperator.hpp
@@ -90,11 +90,6 @@ class BlockOperator : public Operator
         std::vector<int> col_offsets_;
 
         std::vector<std::vector<const Operator*>> A_;
-
-        mutable BlockVector<double> x_;
-        mutable BlockVector<double> y_;
-
-        mutable Vector<double> tmp_;
 };
 
 } //namespace linalgcpp
diff --git a/src/blockoperator.cpp b/src/blockoperator.cpp
index b2b0c9a..9d4ed0e 100644
--- a/src/blockoperator.cpp
+++ b/src/blockoperator.cpp
@@ -14,8 +14,7 @@ BlockOperator::BlockOperator()
 BlockOperator::BlockOperator(std::vector<int> offsets) :
     Operator(offsets.back()),
     row_offsets_(offsets), col_offsets_(offsets),
-    A_(row_offsets_.size() - 1, std::vector<const Operator*>(col_offsets_.size() - 1, nullptr)),
-    x_(col_offsets_), y_(row_offsets_)
+    A_(row_offsets_.size() - 1, std::vector<const Operator*>(col_offsets_.size() - 1, nullptr))
 {
 
 }
@@ -23,8 +22,7 @@ BlockOperator::BlockOperator(std::vector<int> offsets) :
 BlockOperator::BlockOperator(std::vector<int> row_offsets, std::vector<int> col_offsets)
     : Operator(row_offsets.back(), col_offsets.back()),
       row_offsets_(std::move(row_offsets)), col_offsets_(std::move(col_offsets)),
-      A_(row_offsets_.size() - 1, std::vector<const Operator*>(col_offsets_.size() - 1, nullptr)),
-      x_(col_offsets_), y_(row_offsets_)
+      A_(row_offsets_.size() - 1, std::vector<const Operator*>(col_offsets_.size() - 1, nullptr))
 {
 
 }
@@ -32,7 +30,7 @@ BlockOperator::BlockOperator(std::vector<int> row_offsets, std::vector<int> col_
 BlockOperator::BlockOperator(const BlockOperator& other)
     : Operator(other), 
       row_offsets_(other.row_offsets_), col_offsets_(other.col_offsets_),
-      A_(other.A_), x_(other.x_), y_(other.y_)
+      A_(other.A_)
 {
 
 }
@@ -49,8 +47,6 @@ void swap(BlockOperator& lhs, BlockOperator& rhs) noexcept
     swap(lhs.row_offsets_, rhs.row_offsets_);
     swap(lhs.col_offsets_, rhs.col_offsets_);
     swap(lhs.A_, rhs.A_);
-    swap(lhs.x_, rhs.x_);
-    swap(lhs.y_, rhs.y_);
 }
 
 
@@ -88,16 +84,19 @@ void BlockOperator::Mult(const VectorView<double>& input, VectorView<double> out
     assert(input.size() == cols_);
     assert(output.size() == rows_);
 
-    x_ = input;
-    y_ = 0.0;
+    const BlockVector<double> x(input, col_offsets_);
+    BlockVector<double> y(row_offsets_);
+    Vector<double> tmp;
+
+    y = 0.0;
 
     const int row_blocks = row_offsets_.size() - 1;
     const int col_blocks = col_offsets_.size() - 1;
 
     for (int i = 0; i < row_blocks; ++i)
     {
-        VectorView<double> row_y {y_.GetBlock(i)};
-        tmp_.SetSize(row_y.size());
+        VectorView<double> row_y {y.GetBlock(i)};
+        tmp.SetSize(row_y.size());
 
         for (int j = 0; j < col_blocks; ++j)
         {
@@ -105,13 +104,13 @@ void BlockOperator::Mult(const VectorView<double>& input, VectorView<double> out
 
             if (op)
             {
-                op->Mult(x_.GetBlock(j), tmp_);
-                row_y += tmp_;
+                op->Mult(x.GetBlock(j), tmp);
+                row_y += tmp;
             }
         }
     }
 
-    output = y_;
+    output = y;
 }
 
 void BlockOperator::MultAT(const VectorView<double>& input, VectorView<double> output) const
@@ -119,17 +118,19 @@ void BlockOperator::MultAT(const VectorView<double>& input, VectorView<double> o
     assert(input.size() == rows_);
     assert(output.size() == cols_);
 
-    y_ = input;
+    const BlockVector<double> y(input, row_offsets_);
+    BlockVector<double> x(col_offsets_);
+    Vector<double> tmp;
 
-    x_ = 0.0;
+    x = 0.0;
 
     const int row_blocks = row_offsets_.size() - 1;
     const int col_blocks = col_offsets_.size() - 1;
 
     for (int j = 0; j < col_blocks; ++j)
     {
-        VectorView<double> row_x {x_.GetBlock(j)};
-        tmp_.SetSize(row_x.size());
+        VectorView<double> row_x {x.GetBlock(j)};
+        tmp.SetSize(row_x.size());
 
         for (int i = 0; i < row_blocks; ++i)
         {
@@ -137,16 +138,14 @@ void BlockOperator::MultAT(const VectorView<double>& input, VectorView<double> o
 
             if (op)
             {
-                VectorView<double> row_block = y_.GetBlock(i);
-
-                op->MultAT(row_block, tmp_);
+                op->MultAT(y.GetBlock(i), tmp);
 
-                row_x += tmp_;
+                row_x += tmp;
             }
         }
     }
 
-    output = x_;
+    output = x;
 }
 
 } // namespace linalgcpp
-- 
2.43.0


From 1d1c6d110d23504ba66742de6fc93f4231e5629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 09/48] fix: QR of a wide matrix stays within its workspace and
 yields an orthonormal basis

---
 src/densematrix.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 9430b81..95defa7 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -655,7 +655,7 @@ void DenseMatrix::QR()
 
     lwork = static_cast<int>(qwork);
 
-    std::vector<int> jpvt(mn_min, 0);
+    std::vector<int> jpvt(cols, 0);
     std::vector<double> tau(mn_min);
     std::vector<double> work(lwork);
 
@@ -664,14 +664,16 @@ void DenseMatrix::QR()
     const int* k = &mn_min;
 
     lwork = -1;
-    dorgqr_(m, n, k, A, lda, tau.data(), &qwork, &lwork, &info);
+    dorgqr_(m, k, k, A, lda, tau.data(), &qwork, &lwork, &info);
     lwork = static_cast<int>(qwork);
 
     work.resize(lwork);
 
-    dorgqr_(m, n, k, A, lda, tau.data(), work.data(), &lwork, &info);
+    dorgqr_(m, k, k, A, lda, tau.data(), work.data(), &lwork, &info);
 
     assert(info == 0);
+
+    SetSize(rows, mn_min);
 }
 
 void DenseMatrix::Invert(DenseMatrix& inv) const
-- 
2.43.0


From 8a0221c2acdbaec6d96a59ff95b3401d5afb5621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 10/48] fix: EigenSolver never reads past the eigenvalues when
 asked for more than there are

---
 src/eigensolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index d245841..ccfe8e8 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -96,7 +96,7 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
     // Determine how many eigenvectors to be computed
     const double tol = evals.back() * rel_tol;
 
-    if (max_evect < 0)
+    if (max_evect < 0 || max_evect > n)
     {
         max_evect = n;
     }
-- 
2.43.0


From 9a81424fd45a4b4803d94dac1f3e78ac09e84363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 11/48] fix: iterative solvers stop at a zero residual and
 count the iterations they do

MINRES and PMINRES divided by the norm of a zero residual, PCG with zero
tolerances by r.z = 0; PCG performed max_iter - 1 iterations (one for zero) and
MINRES reported max_iter + 1.  The preconditioner of a default constructed
solver was uninitialized.
---
 include/solvers.hpp |  4 ++--
 src/solvers.cpp     | 37 ++++++++++++++++++++++++++++---------
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/include/solvers.hpp b/include/solvers.hpp
index 6ed2332..41bcc86 100644
--- a/include/solvers.hpp
+++ b/include/solvers.hpp
@@ -145,7 +145,7 @@ class PCGSolver : public Solver
         void Mult(const VectorView<double>& input, VectorView<double> output) const override;
 
     private:
-        const Operator* M_;
+        const Operator* M_ = nullptr;
 
         mutable Vector<double> Ap_;
         mutable Vector<double> r_;
@@ -242,7 +242,7 @@ class PMINRESSolver : public Solver
         void Mult(const VectorView<double>& input, VectorView<double> output) const override;
 
     private:
-        const Operator* M_;
+        const Operator* M_ = nullptr;
 
         mutable Vector<double> w0_;
         mutable Vector<double> w1_;
diff --git a/src/solvers.cpp b/src/solvers.cpp
index 341a985..56387d2 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -169,16 +169,18 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
     const double tol_tol = std::max(r0 * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
-    num_iter_ = 1;
+    num_iter_ = 0;
 
-    if ((*Dot_)(z_, r_) < tol_tol)
+    if (r0 <= tol_tol)
     //if ((*Dot_)(r_, r_) < tol_tol)
     {
         return;
     }
 
-    do
+    while (num_iter_ < max_iter_)
     {
+        ++num_iter_;
+
         A_->Mult(p_, Ap_);
 
         double pAp = (*Dot_)(p_, Ap_);
@@ -209,7 +211,7 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
             printf("PCG %d: %.2e\n", num_iter_, numer / r0);
         }
 
-        if (numer < tol_tol)
+        if (numer <= tol_tol)
         {
             break;
         }
@@ -219,7 +221,6 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
         p_ *= beta;
         p_ += z_;
     }
-    while (++num_iter_ < max_iter_);
 }
 
 Vector<double> PCG(const Operator& A, const Operator& M, const VectorView<double>& b,
@@ -307,8 +308,17 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
     double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
-    for (num_iter_ = 1; num_iter_ <= max_iter_; ++num_iter_)
+    num_iter_ = 0;
+
+    if (eta <= tol)
     {
+        return;
+    }
+
+    while (num_iter_ < max_iter_)
+    {
+        ++num_iter_;
+
         v1_ /= beta;
         A_->Mult(v1_, q_);
 
@@ -350,7 +360,7 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
             printf("MINRES %d: %.2e\n", num_iter_, eta);
         }
 
-        if (std::fabs(eta) < tol)
+        if (std::fabs(eta) <= tol)
         {
             break;
         }
@@ -457,8 +467,17 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
 
     double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
-    for (num_iter_ = 1; num_iter_ <= max_iter_; ++num_iter_)
+    num_iter_ = 0;
+
+    if (eta <= tol)
+    {
+        return;
+    }
+
+    while (num_iter_ < max_iter_)
     {
+        ++num_iter_;
+
         v1_ /= beta;
         u1_ /= beta;
 
@@ -503,7 +522,7 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
             printf("PMINRES %d: %.2e\n", num_iter_, eta);
         }
 
-        if (std::fabs(eta) < tol)
+        if (std::fabs(eta) <= tol)
         {
             break;
         }
-- 
2.43.0


From 7de43561673533cb8abc7451231a8e023961bec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 12/48] fix: CooMatrix without a given size reports the size
 its entries imply

---
 include/coomatrix.hpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index 90823e0..e9e7fc8 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -66,6 +66,24 @@ class CooMatrix : public Operator
         template <typename U>
         friend void swap(CooMatrix<U>& lhs, CooMatrix<U>& rhs) noexcept;
 
+        /*! @brief Get the number of rows.
+            @retval the number of rows
+
+            @note If the matrix size was not specified during
+            creation, then the number of rows is determined
+            by the maximum element.
+        */
+        int Rows() const override;
+
+        /*! @brief Get the number of columns.
+            @retval the number of columns
+
+            @note If the matrix size was not specified during
+            creation, then the number of columns is determined
+            by the maximum element
+        */
+        int Cols() const override;
+
         /*! @brief Set the size of the matrix
             @param rows the number of rows
             @param cols the number of columns
@@ -303,6 +321,18 @@ void swap(CooMatrix<T>& lhs, CooMatrix<T>& rhs) noexcept
     std::swap(lhs.entries_, rhs.entries_);
 }
 
+template <typename T>
+int CooMatrix<T>::Rows() const
+{
+    return std::get<0>(FindSize());
+}
+
+template <typename T>
+int CooMatrix<T>::Cols() const
+{
+    return std::get<1>(FindSize());
+}
+
 template <typename T>
 void CooMatrix<T>::SetSize(int rows, int cols)
 {
-- 
2.43.0


From d414f6ceb0c117ec1e5462257fd386e23e30ae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 13/48] fix: assigning a non-const view to a Vector resizes it

---
 include/vector.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/vector.hpp b/include/vector.hpp
index 6fe692d..043f37f 100644
--- a/include/vector.hpp
+++ b/include/vector.hpp
@@ -90,6 +90,15 @@ class Vector : public VectorView<T>
         */
         Vector& operator=(const VectorView<T>& vect);
 
+        /*! @brief Sets this vector equal to another
+            @param vect the vector to copy
+
+            @note Without these, a non-const view would only be copied
+            over the existing entries, whatever their number
+        */
+        Vector& operator=(VectorView<T>& vect);
+        Vector& operator=(VectorView<T>&& vect);
+
         /*! @brief Sets this vector equal to another
             @param vect the vector to copy
         */
@@ -221,6 +230,18 @@ Vector<T>& Vector<T>::operator=(const VectorView<T>& vect)
     return *this;
 }
 
+template <typename T>
+Vector<T>& Vector<T>::operator=(VectorView<T>& vect)
+{
+    return *this = static_cast<const VectorView<T>&>(vect);
+}
+
+template <typename T>
+Vector<T>& Vector<T>::operator=(VectorView<T>&& vect)
+{
+    return *this = static_cast<const VectorView<T>&>(vect);
+}
+
 template <typename T>
 Vector<T>& Vector<T>::operator=(Vector<T>&& vect) noexcept
 {
-- 
2.43.0


From 35ef12997ae135602d8164c4626efe19be57df14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 14/48] fix: products of dense matrices without rows or columns
 do not stop the program

---
 src/densematrix.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 95defa7..683de7a 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -245,15 +245,14 @@ void DenseMatrix::dgemm(const DenseMatrix& input, DenseMatrix& output, bool AT,
 
     double alpha = 1.0;
     const double* A = data_.data();
-    int lda = rows_;
+    int lda = std::max(1, rows_);
     const double* B = input.data_.data();
-    int ldb = input.Rows();
+    int ldb = std::max(1, input.Rows());
     double beta = 0.0;
 
     output.SetSize(m, n);
     double* c = output.data_.data();
-    int ldc = output.Rows();
-
+    int ldc = std::max(1, output.Rows());
 
     dgemm_(&transA, &transB, &m, &n, &k,
            &alpha, A, &lda, B, &ldb,
-- 
2.43.0


From 7caf3ebe52f78f4e7aff1bce61a40d60f582f3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 15/48] fix: SparseSolver reports UMFPACK failures, initializes
 its factors and solves without shared scratch

---
 modules/sparsesolver/include/sparsesolve.hpp |  2 +-
 modules/sparsesolver/src/sparsesolve.cpp     | 49 ++++++++++++++++----
 2 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/modules/sparsesolver/include/sparsesolve.hpp b/modules/sparsesolver/include/sparsesolve.hpp
index ec4f0a8..35b783b 100644
--- a/modules/sparsesolver/include/sparsesolve.hpp
+++ b/modules/sparsesolver/include/sparsesolve.hpp
@@ -36,7 +36,7 @@ class SparseSolver : public linalgcpp::Operator
         void* numeric_;
 
         std::vector<double> control_;
-        mutable std::vector<double> info_;
+        std::vector<double> info_;
 };
 
 #endif // SPARSESOLVE_HPP__
diff --git a/modules/sparsesolver/src/sparsesolve.cpp b/modules/sparsesolver/src/sparsesolve.cpp
index 42148de..83dbbf0 100644
--- a/modules/sparsesolver/src/sparsesolve.cpp
+++ b/modules/sparsesolver/src/sparsesolve.cpp
@@ -2,6 +2,23 @@
 
 #include "sparsesolve.hpp"
 
+#include <stdexcept>
+#include <string>
+
+namespace
+{
+
+void Verify(int status, const char* step)
+{
+    if (status != UMFPACK_OK)
+    {
+        throw std::runtime_error(std::string("SparseSolver: ") + step +
+                                 " failed, UMFPACK status " + std::to_string(status));
+    }
+}
+
+} // namespace
+
 SparseSolver::SparseSolver(linalgcpp::SparseMatrix<double> A)
     : Operator(A), A_(std::move(A)), numeric_(nullptr),
       control_(UMFPACK_CONTROL, 0), info_(UMFPACK_INFO, 0)
@@ -18,7 +35,8 @@ SparseSolver::SparseSolver(linalgcpp::SparseMatrix<double> A)
 }
 
 SparseSolver::SparseSolver(const SparseSolver& other)
-    : Operator(other), A_(other.A_), control_(other.control_), info_(other.info_)
+    : Operator(other), A_(other.A_), numeric_(nullptr),
+      control_(other.control_), info_(other.info_)
 {
     if (A_.nnz() > 0)
     {
@@ -27,6 +45,7 @@ SparseSolver::SparseSolver(const SparseSolver& other)
 }
 
 SparseSolver::SparseSolver(SparseSolver&& other) noexcept
+    : numeric_(nullptr)
 {
     swap(*this, other);
 }
@@ -65,14 +84,20 @@ void SparseSolver::Init()
     int symb_status = umfpack_di_symbolic(rows, cols, indptr, indices, data,
             &symbolic, control_.data(), info_.data());
 
-    assert(symb_status == 0);
+    Verify(symb_status, "symbolic factorization");
 
     int num_status = umfpack_di_numeric(indptr, indices, data,
             symbolic, &numeric_, control_.data(), info_.data());
 
-    assert(num_status == 0);
-
     umfpack_di_free_symbolic(&symbolic);
+
+    if (num_status != UMFPACK_OK)
+    {
+        umfpack_di_free_numeric(&numeric_);
+        numeric_ = nullptr;
+    }
+
+    Verify(num_status, "numeric factorization");
 }
 
 SparseSolver::~SparseSolver()
@@ -103,12 +128,14 @@ void SparseSolver::Mult(const linalgcpp::VectorView<double>& input,
     const double* in = input.begin();
     double* out = output.begin();
 
+    std::vector<double> info(UMFPACK_INFO, 0);
+
     int status = umfpack_di_solve(UMFPACK_At, indptr, indices, data,
-                                  out, in, numeric_, control_.data(), info_.data());
+                                  out, in, numeric_, control_.data(), info.data());
 
-    umfpack_di_report_info(control_.data(), info_.data());
+    umfpack_di_report_info(control_.data(), info.data());
 
-    assert(status == 0);
+    Verify(status, "solve");
 }
 
 void SparseSolver::MultAT(const linalgcpp::VectorView<double>& input,
@@ -130,11 +157,13 @@ void SparseSolver::MultAT(const linalgcpp::VectorView<double>& input,
     const double* in = input.begin();
     double* out = output.begin();
 
+    std::vector<double> info(UMFPACK_INFO, 0);
+
     int status = umfpack_di_solve(UMFPACK_A, indptr, indices, data,
-                                  out, in, numeric_, control_.data(), info_.data());
+                                  out, in, numeric_, control_.data(), info.data());
 
-    umfpack_di_report_info(control_.data(), info_.data());
+    umfpack_di_report_info(control_.data(), info.data());
 
-    assert(status == 0);
+    Verify(status, "solve");
 }
 
-- 
2.43.0


From f8782c498ca635d256d2dbf848d13751f09f65e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:12 +0000
Subject: [PATCH 16/48] fix: Timer measured with a clock that jumps when the
 system time is set

high_resolution_clock is the system clock in libstdc++, so elapsed times were
wrong, even negative, when the time was adjusted between clicks.
---
 include/timer.hpp | 2 +-
 src/timer.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/timer.hpp b/include/timer.hpp
index dd9d42e..b0d3a9c 100644
--- a/include/timer.hpp
+++ b/include/timer.hpp
@@ -23,7 +23,7 @@ class Timer
         double operator[](int index) const;
 
     private:
-        std::vector<std::chrono::time_point<std::chrono::high_resolution_clock>> times_;
+        std::vector<std::chrono::time_point<std::chrono::steady_clock>> times_;
 
 };
 
diff --git a/src/timer.cpp b/src/timer.cpp
index 317b6b7..1b0c6a0 100644
--- a/src/timer.cpp
+++ b/src/timer.cpp
@@ -13,7 +13,7 @@ Timer::Timer(Start start)
 
 void Timer::Click()
 {
-    times_.push_back(std::chrono::high_resolution_clock::now());
+    times_.push_back(std::chrono::steady_clock::now());
 }
 
 double Timer::TotalTime() const
-- 
2.43.0


From 52dd9af143e91ea26685a2827f830eca5f9a3698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:12 +0000
Subject: [PATCH 17/48] fix: a seeded Randomize failed when no entropy was
 available

The entropy source was opened and read even when the given seed made it
unnecessary.
---
 src/vectorview.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/vectorview.cpp b/src/vectorview.cpp
index 57de27e..ce75728 100644
--- a/src/vectorview.cpp
+++ b/src/vectorview.cpp
@@ -4,14 +4,18 @@ namespace linalgcpp
 {
 void Randomize(VectorView<double> vect, double lo, double hi, int seed)
 {
-    std::random_device r;
-    std::default_random_engine dev(r());
+    std::default_random_engine dev;
     std::uniform_real_distribution<double> gen(lo, hi);
 
     if (seed >= 0)
     {
         dev.seed(seed);
     }
+    else
+    {
+        std::random_device r;
+        dev.seed(r());
+    }
 
     for (double& val : vect)
     {
@@ -21,14 +25,18 @@ void Randomize(VectorView<double> vect, double lo, double hi, int seed)
 
 void Randomize(VectorView<int> vect, int lo, int hi, int seed)
 {
-    std::random_device r;
-    std::default_random_engine dev(r());
+    std::default_random_engine dev;
     std::uniform_int_distribution<int> gen(lo, hi);
 
     if (seed >= 0)
     {
         dev.seed(seed);
     }
+    else
+    {
+        std::random_device r;
+        dev.seed(r());
+    }
 
     for (int& val : vect)
     {
-- 
2.43.0


From 4b47ae54b443adebd58af982bc7c54e685a8d4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:57 +0000
Subject: [PATCH 18/48] fix: failed factorisations returned garbage instead of
 an error

The status of most LAPACK calls in SVD, QR, Invert and EigenSolver was dropped
or only asserted.
---
 src/densematrix.cpp | 11 ++++++++---
 src/eigensolver.cpp |  9 +++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 683de7a..4deb1a8 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -1,4 +1,5 @@
 #include "densematrix.hpp"
+#include "utilities.hpp"
 
 extern "C"
 {
@@ -610,7 +611,7 @@ std::vector<double> DenseMatrix::SVD()
     dgesvd_(jobu, jobvt, m, n, A, lda, S, U, ldu, VT, ldvt,
             work.data(), &lwork, &info);
 
-    assert(info == 0);
+    linalgcpp_verify(info == 0, "DenseMatrix::SVD failed!");
 
     return singular_values;
 }
@@ -660,6 +661,8 @@ void DenseMatrix::QR()
 
     dgeqp3_(m, n, A, lda, jpvt.data(), tau.data(), work.data(), &lwork, &info);
 
+    linalgcpp_verify(info == 0, "DenseMatrix::QR failed!");
+
     const int* k = &mn_min;
 
     lwork = -1;
@@ -670,7 +673,7 @@ void DenseMatrix::QR()
 
     dorgqr_(m, k, k, A, lda, tau.data(), work.data(), &lwork, &info);
 
-    assert(info == 0);
+    linalgcpp_verify(info == 0, "DenseMatrix::QR failed!");
 
     SetSize(rows, mn_min);
 }
@@ -705,6 +708,8 @@ void DenseMatrix::Invert()
     // Factor
     dgetrf_(m, n, A, lda, ipiv.data(), &info);
 
+    linalgcpp_verify(info == 0, "DenseMatrix::Invert failed, matrix is singular!");
+
     // Invert
     int lwork = -1;
     double qwork;
@@ -716,7 +721,7 @@ void DenseMatrix::Invert()
 
     dgetri_(n, A, lda, ipiv.data(), work.data(), &lwork, &info);
 
-    assert(info == 0);
+    linalgcpp_verify(info == 0, "DenseMatrix::Invert failed!");
 }
 
 std::vector<double> DenseMatrix::GetDiag() const
diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index ccfe8e8..5dca75c 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -1,4 +1,5 @@
 #include "eigensolver.hpp"
+#include "utilities.hpp"
 
 extern "C"
 {
@@ -85,6 +86,8 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
     dsytrd_(&uplo_, &n, a, &n, d_.data(), e_.data(), tau_.data(), work_.data(),
             &lwork_, &info_ );
 
+    linalgcpp_verify(info_ == 0, "EigenSolver: tridiagonalization failed!");
+
     // d_ and e_ changed by dsterf_
     // copy since they are needed for dstein_
     std::copy_n(std::begin(d_), n, std::begin(evals));
@@ -93,6 +96,8 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
     // Compute all eigenvalues
     dsterf_(&n, evals.data(), e_copy.data(), &info_);
 
+    linalgcpp_verify(info_ == 0, "EigenSolver: eigenvalues failed to converge!");
+
     // Determine how many eigenvectors to be computed
     const double tol = evals.back() * rel_tol;
 
@@ -121,12 +126,16 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
             work_.data(), iwork_.data(), ifail_.data(),
             &info_);
 
+    linalgcpp_verify(info_ == 0, "EigenSolver: eigenvectors failed to converge!");
+
     // Compute Q * (eigenvectors of T)
     dormtr_(&side_, &uplo_, &trans_, &n,
             &m, a, &n,
             tau_.data(), evects.GetData(), &n, work_.data(),
             &lwork_, &info_);
 
+    linalgcpp_verify(info_ == 0, "EigenSolver: back transformation failed!");
+
     // Should we keep all evals?
     evals.resize(n);
 
-- 
2.43.0


From 033e3a76627f39be2c9e27aa525552fadc974d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:57 +0000
Subject: [PATCH 19/48] fix: eigenvectors of the zero matrix were NaN

Inverse iteration divides by the norm of the tridiagonal matrix.
---
 src/eigensolver.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index 5dca75c..5a1b9cf 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -119,6 +119,22 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
     evects.SetSize(n, m);
     //std::vector<double> evect_data(n * m);
 
+    const bool zero = std::all_of(std::begin(d_), std::begin(d_) + n, [](double val) { return val == 0.0; }) &&
+                      std::all_of(std::begin(e_), std::begin(e_) + n - 1, [](double val) { return val == 0.0; });
+
+    if (zero)
+    {
+        // Inverse iteration scales by the norm of T.  Any basis will do.
+        evects = 0.0;
+
+        for (int i = 0; i < m; ++i)
+        {
+            evects(i, i) = 1.0;
+        }
+
+        return;
+    }
+
     // Calculate Eigenvectors of T
     dstein_(&n, d_.data(), e_.data(),
             &m, evals.data(), iblock_.data(),
-- 
2.43.0


From bf44d9f346ee1006317ab9635e3c3245ca481412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 20/48] fix: Partition returned a meaningless partition when
 METIS failed

---
 modules/partition/include/partition.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/partition/include/partition.hpp b/modules/partition/include/partition.hpp
index 04c895e..ab2ac19 100644
--- a/modules/partition/include/partition.hpp
+++ b/modules/partition/include/partition.hpp
@@ -141,8 +141,10 @@ std::vector<int> Partition(const linalgcpp::SparseMatrix<T>& mat, int num_parts
 
     idx_t objval;
 
-    METIS_PartGraphKway(&nvtxs, &ncon, xadj, adjncy, vwgt, vsize, adjwgt,
-                             &nparts, tpwgts, &ubvec, options, &objval, part.data());
+    const int status = METIS_PartGraphKway(&nvtxs, &ncon, xadj, adjncy, vwgt, vsize, adjwgt,
+                                           &nparts, tpwgts, &ubvec, options, &objval, part.data());
+
+    linalgcpp_verify(status == METIS_OK, "METIS failed to partition the graph!");
 
     RemoveEmpty(part);
 
-- 
2.43.0


From 23f15ea12c4b0306fe8c13a11c0001b13b89482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 21/48] fix: moving a SparseSolver allocated memory, ending the
 program when there was none

The default SparseMatrix owns one row pointer, so creating it to swap with
could throw from the noexcept move constructor.
---
 modules/sparsesolver/src/sparsesolve.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/sparsesolver/src/sparsesolve.cpp b/modules/sparsesolver/src/sparsesolve.cpp
index 83dbbf0..7a1ec33 100644
--- a/modules/sparsesolver/src/sparsesolve.cpp
+++ b/modules/sparsesolver/src/sparsesolve.cpp
@@ -45,9 +45,13 @@ SparseSolver::SparseSolver(const SparseSolver& other)
 }
 
 SparseSolver::SparseSolver(SparseSolver&& other) noexcept
-    : numeric_(nullptr)
+    : A_(std::move(other.A_)), numeric_(nullptr)
 {
-    swap(*this, other);
+    swap(static_cast<linalgcpp::Operator&>(*this), static_cast<linalgcpp::Operator&>(other));
+
+    std::swap(numeric_, other.numeric_);
+    std::swap(control_, other.control_);
+    std::swap(info_, other.info_);
 }
 
 SparseSolver& SparseSolver::operator=(SparseSolver other) noexcept
-- 
2.43.0


From 013106b6ed947d5cf154148932aa4319a72e8145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 22/48] fix: Partition threw length_error on graphs with fewer
 entries than vertices

The number of edges to reserve was negative when the graph has no diagonal and
few edges.
---
 modules/partition/include/partition.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/partition/include/partition.hpp b/modules/partition/include/partition.hpp
index ab2ac19..861fc0b 100644
--- a/modules/partition/include/partition.hpp
+++ b/modules/partition/include/partition.hpp
@@ -17,7 +17,7 @@ MakeAdjacencyInfo(const linalgcpp::SparseMatrix<T>& mat, bool weighted = false)
 {
     assert(mat.Cols() == mat.Rows());
 
-    int num_edges = (mat.nnz() - mat.Rows()) / 2;
+    const int num_edges = mat.nnz();
 
     std::vector<U> indptr(mat.Rows() + 1);
     std::vector<U> indices;
-- 
2.43.0


From 51991f368f3b1166f3c924a4affd8a4f00fe49c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 23/48] fix: a default ParVector has a global size of zero

---
 modules/parlinalgcpp/src/parvector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parvector.cpp b/modules/parlinalgcpp/src/parvector.cpp
index 3466913..518c419 100644
--- a/modules/parlinalgcpp/src/parvector.cpp
+++ b/modules/parlinalgcpp/src/parvector.cpp
@@ -6,7 +6,7 @@ namespace linalgcpp
 {
 
 ParVector::ParVector()
-    : Vector(0), comm_(0), pvect_(nullptr)
+    : Vector(0), comm_(0), pvect_(nullptr), global_size_(0)
 {
 }
 
-- 
2.43.0


From e0765e981e89a1752ce4abc46baeafc40737162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 24/48] fix: do not print debugging output when a ParVector is
 created

---
 modules/parlinalgcpp/src/parvector.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parvector.cpp b/modules/parlinalgcpp/src/parvector.cpp
index 518c419..2f33159 100644
--- a/modules/parlinalgcpp/src/parvector.cpp
+++ b/modules/parlinalgcpp/src/parvector.cpp
@@ -18,7 +18,6 @@ ParVector::ParVector(MPI_Comm comm, const std::vector<HYPRE_Int>& part)
 ParVector::ParVector(MPI_Comm comm, double val, const std::vector<HYPRE_Int>& part)
     : Vector(part[1] - part[0], val), comm_(comm), pvect_(nullptr), partition_(part)
 {
-    printf("Parvector: %d %d - > %d\n", part[1], part[0], size());
     Init();
 }
 
-- 
2.43.0


From 233164606b09b9c23e1197333236bdafdfbd1856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 25/48] fix: ParSplit mirrored the upper local entries of
 nonsymmetric matrices

---
 modules/parlinalgcpp/src/parutilities.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/modules/parlinalgcpp/src/parutilities.cpp b/modules/parlinalgcpp/src/parutilities.cpp
index cdebca8..88f2d3d 100644
--- a/modules/parlinalgcpp/src/parutilities.cpp
+++ b/modules/parlinalgcpp/src/parutilities.cpp
@@ -77,10 +77,7 @@ ParMatrix ParSplit(MPI_Comm comm, const linalgcpp::SparseMatrix<double>& A_globa
                 int local_col = local_index[perm[col]];
                 assert(local_col >= 0 && local_col < local_vertices);
 
-                if (local_col >= local_vertex)
-                {
-                    local_diag.AddSym(local_vertex, local_col, val);
-                }
+                local_diag.Add(local_vertex, local_col, val);
             }
             else
             {
-- 
2.43.0


From 4371489227a8ed94e4c2dd226fb7150ff6421c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 26/48] fix: ParAdd did not scale the first off-diagonal entry
 of a column

---
 modules/parlinalgcpp/src/parutilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parutilities.cpp b/modules/parlinalgcpp/src/parutilities.cpp
index 88f2d3d..4b74f07 100644
--- a/modules/parlinalgcpp/src/parutilities.cpp
+++ b/modules/parlinalgcpp/src/parutilities.cpp
@@ -273,7 +273,7 @@ ParMatrix ParAdd(double alpha, const ParMatrix& A, double beta, const ParMatrix&
                 }
                 else
                 {
-                    coo_offd.Add(i, col_map.size(), data[j]);
+                    coo_offd.Add(i, col_map.size(), val * data[j]);
                     marker[global_col] = col_map.size();
 
                     col_map.emplace_back(global_col);
-- 
2.43.0


From 0ff103450db9182c9d99e75eb4058d94db29c705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 27/48] fix: copying a default ParVector created a hypre vector
 without a communicator

---
 modules/parlinalgcpp/src/parvector.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parvector.cpp b/modules/parlinalgcpp/src/parvector.cpp
index 2f33159..bac6984 100644
--- a/modules/parlinalgcpp/src/parvector.cpp
+++ b/modules/parlinalgcpp/src/parvector.cpp
@@ -54,7 +54,10 @@ ParVector::ParVector(const ParVector& other)
     : linalgcpp::Vector<double>(other), comm_(other.comm_), pvect_(nullptr), partition_(other.partition_),
       global_size_(other.global_size_)
 {
-    HypreCreate();
+    if (other.pvect_)
+    {
+        HypreCreate();
+    }
 }
 
 ParVector::ParVector(ParVector&& other)
-- 
2.43.0


From 0bfd5d46e5ece7357923718662da42023f003a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 28/48] fix: ParMatrix::MaxNorm was a sum of absolute values,
 not their maximum

---
 modules/parlinalgcpp/src/parmatrix.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parmatrix.cpp b/modules/parlinalgcpp/src/parmatrix.cpp
index e808cad..55314ea 100644
--- a/modules/parlinalgcpp/src/parmatrix.cpp
+++ b/modules/parlinalgcpp/src/parmatrix.cpp
@@ -353,7 +353,16 @@ ParCommPkg ParMatrix::MakeCommPkg() const
 
 double ParMatrix::MaxNorm() const
 {
-    double local_max = std::max(diag_.MaxNorm(), offd_.MaxNorm());
+    double local_max = 0.0;
+
+    for (const auto* mat : {&diag_, &offd_})
+    {
+        for (const auto& val : mat->GetData())
+        {
+            local_max = std::max(local_max, std::fabs(val));
+        }
+    }
+
     double global_max = 0.0;
 
     MPI_Allreduce(&local_max, &global_max, 1, MPI_DOUBLE, MPI_MAX,
-- 
2.43.0


From f140e60bf4e484d99a32766526f10cf9ad92aef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 29/48] fix: ParMult and ParL2Norm of ParVectors summed over
 the processors twice

---
 modules/parlinalgcpp/src/parvector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/parlinalgcpp/src/parvector.cpp b/modules/parlinalgcpp/src/parvector.cpp
index bac6984..cb9a978 100644
--- a/modules/parlinalgcpp/src/parvector.cpp
+++ b/modules/parlinalgcpp/src/parvector.cpp
@@ -215,7 +215,7 @@ double Mult(const ParVector& lhs, const ParVector& rhs)
 
 double ParL2Norm(MPI_Comm comm, const linalgcpp::VectorView<double>& vect)
 {
-    double local_sum = vect.Mult(vect);
+    double local_sum = vect.VectorView<double>::Mult(vect);
 
     double global_sum;
     MPI_Allreduce(&local_sum, &global_sum, 1, MPI_DOUBLE, MPI_SUM, comm);
@@ -230,7 +230,7 @@ double L2Norm(const ParVector& vect)
 
 double ParMult(MPI_Comm comm, const linalgcpp::VectorView<double>& lhs, const linalgcpp::VectorView<double>& rhs)
 {
-    double local_sum = lhs.Mult(rhs);
+    double local_sum = lhs.VectorView<double>::Mult(rhs);
 
     double global_sum;
     MPI_Allreduce(&local_sum, &global_sum, 1, MPI_DOUBLE, MPI_SUM, comm);
-- 
2.43.0


From 02c6b7bd862b389f54ebed547f37c4b2b24c49cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 30/48] fix: moved, moved-from and default ParSmoothers had
 uninitialised members

---
 modules/parlinalgcpp/src/parsmoother.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modules/parlinalgcpp/src/parsmoother.cpp b/modules/parlinalgcpp/src/parsmoother.cpp
index 3919721..4718da3 100644
--- a/modules/parlinalgcpp/src/parsmoother.cpp
+++ b/modules/parlinalgcpp/src/parsmoother.cpp
@@ -5,7 +5,8 @@
 namespace linalgcpp
 {
 ParSmoother::ParSmoother()
-    : buffer_shell_(nullptr)
+    : type_(SmoothType::Jacobi), relax_times_(1),
+      relax_weight_(1.0), omega_(1.0), buffer_shell_(nullptr)
 {
 }
 
@@ -26,10 +27,14 @@ ParSmoother::ParSmoother(const ParSmoother& other)
       relax_weight_(other.relax_weight_), omega_(other.omega_),
       buffer_(other.buffer_), buffer_shell_(nullptr), l1_norms_(other.l1_norms_)
 {
-    InitVector(buffer_shell_, row_starts_);
+    if (other.buffer_shell_)
+    {
+        InitVector(buffer_shell_, row_starts_);
+    }
 }
 
 ParSmoother::ParSmoother(ParSmoother&& other)
+    : ParSmoother()
 {
     swap(*this, other);
 }
-- 
2.43.0


From 941d8da94c6c5eaa6884ec26ac08cca8c4505ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 31/48] fix: copies of a BoomerAMG lost its parameters and were
 never set up

---
 modules/parlinalgcpp/include/parsolvers.hpp | 3 +++
 modules/parlinalgcpp/src/parsolvers.cpp     | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index 4b66745..42a175e 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -155,6 +155,9 @@ class BoomerAMG: public ParSolver
         friend void swap(BoomerAMG& lhs, BoomerAMG& rhs) noexcept;
 
         ~BoomerAMG() = default;
+
+    private:
+        void Init();
 };
 
 class ParaSails: public ParSolver
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 2135153..527bc23 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -113,6 +113,11 @@ BoomerAMG::BoomerAMG(ParMatrix A, size_t max_iter,
     : ParSolver(std::move(A), max_iter, tol, verbose,
                 &HYPRE_BoomerAMGCreate, &HYPRE_BoomerAMGDestroy,
                 &HYPRE_BoomerAMGSetup, &HYPRE_BoomerAMGSolve)
+{
+    Init();
+}
+
+void BoomerAMG::Init()
 {
     // Parameters mostly copied directly from mfem
     int coarsen_type = 10;   // 10 = HMIS, 8 = PMIS, 6 = Falgout, 0 = CLJP
@@ -145,6 +150,10 @@ BoomerAMG::BoomerAMG(ParMatrix A, size_t max_iter,
 BoomerAMG::BoomerAMG(const BoomerAMG& other)
     : ParSolver(other)
 {
+    if (other.GetSolver())
+    {
+        Init();
+    }
 }
 
 BoomerAMG::BoomerAMG(BoomerAMG&& other) noexcept
-- 
2.43.0


From 5fc5954d8b096c26b3cca1f37148ec3940f7f4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 32/48] fix: ParaSails cut the load balance to an integer

---
 modules/parlinalgcpp/include/parsolvers.hpp | 2 +-
 modules/parlinalgcpp/src/parsolvers.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index 42a175e..195e8fc 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -181,7 +181,7 @@ class ParaSails: public ParSolver
 
         void SetFilter(double filter);
         void SetSym(int sym);
-        void SetLoadBal(int load_bal);
+        void SetLoadBal(double load_bal);
         void SetReuse(int reuse);
         void SetLogging(int logging);
 };
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 527bc23..4fe9065 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -228,7 +228,7 @@ void ParaSails::SetSym(int sym)
     HYPRE_ParaSailsSetSym(GetSolver(), sym);
 }
 
-void ParaSails::SetLoadBal(int load_bal)
+void ParaSails::SetLoadBal(double load_bal)
 {
     HYPRE_ParaSailsSetLoadbal(GetSolver(), load_bal);
 }
-- 
2.43.0


From 360755fffa37ce9a5421dd4eb76772571c4bb70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 33/48] fix: copies of a ParaSails had no hypre solver

---
 modules/parlinalgcpp/include/parsolvers.hpp | 11 ++++++
 modules/parlinalgcpp/src/parsolvers.cpp     | 43 +++++++++++++++++----
 2 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index 195e8fc..dd67010 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -184,6 +184,17 @@ class ParaSails: public ParSolver
         void SetLoadBal(double load_bal);
         void SetReuse(int reuse);
         void SetLogging(int logging);
+
+    private:
+        void Init();
+
+        int reuse_ = 0;
+        int sym_ = 0;
+        int logging_ = 0;
+        double load_bal_ = 0.0;
+        double threshold_ = 0.1;
+        double filter_ = 0.1;
+        int max_levels_ = 1;
 };
 
 class ParCG: public ParSolver
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 4fe9065..bff60f4 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -180,25 +180,39 @@ ParaSails::ParaSails(ParMatrix A, bool verbose,
                      double filter, int max_levels)
     : ParSolver(std::move(A), 0, 0, verbose,
                 &no_create, &HYPRE_ParaSailsDestroy,
-                &HYPRE_ParaSailsSetup, &HYPRE_ParaSailsSolve)
+                &HYPRE_ParaSailsSetup, &HYPRE_ParaSailsSolve),
+      reuse_(reuse), sym_(sym), logging_(verbose), load_bal_(load_bal),
+      threshold_(threshold), filter_(filter), max_levels_(max_levels)
+{
+    Init();
+}
+
+void ParaSails::Init()
 {
     auto& solver_ = ParSolver::GetSolver();
 
     HYPRE_ParaSailsCreate(A_.GetComm(), &solver_);
-    HYPRE_ParaSailsSetParams(solver_, threshold, max_levels);
+    HYPRE_ParaSailsSetParams(solver_, threshold_, max_levels_);
 
-    SetFilter(filter);
-    SetSym(sym);
-    SetLoadBal(load_bal);
-    SetReuse(reuse);
-    SetLogging(verbose);
+    SetFilter(filter_);
+    SetSym(sym_);
+    SetLoadBal(load_bal_);
+    SetReuse(reuse_);
+    SetLogging(logging_);
 
     HypreSetup();
 }
 
 ParaSails::ParaSails(const ParaSails& other)
-    : ParSolver(other)
+    : ParSolver(other), reuse_(other.reuse_), sym_(other.sym_),
+      logging_(other.logging_), load_bal_(other.load_bal_),
+      threshold_(other.threshold_), filter_(other.filter_),
+      max_levels_(other.max_levels_)
 {
+    if (other.GetSolver())
+    {
+        Init();
+    }
 }
 
 ParaSails::ParaSails(ParaSails&& other) noexcept
@@ -216,30 +230,43 @@ ParaSails& ParaSails::operator=(ParaSails other) noexcept
 void swap(ParaSails& lhs, ParaSails& rhs) noexcept
 {
     swap(static_cast<ParSolver&>(lhs), static_cast<ParSolver&>(rhs));
+
+    std::swap(lhs.reuse_, rhs.reuse_);
+    std::swap(lhs.sym_, rhs.sym_);
+    std::swap(lhs.logging_, rhs.logging_);
+    std::swap(lhs.load_bal_, rhs.load_bal_);
+    std::swap(lhs.threshold_, rhs.threshold_);
+    std::swap(lhs.filter_, rhs.filter_);
+    std::swap(lhs.max_levels_, rhs.max_levels_);
 }
 
 void ParaSails::SetFilter(double filter)
 {
+    filter_ = filter;
     HYPRE_ParaSailsSetFilter(GetSolver(), filter);
 }
 
 void ParaSails::SetSym(int sym)
 {
+    sym_ = sym;
     HYPRE_ParaSailsSetSym(GetSolver(), sym);
 }
 
 void ParaSails::SetLoadBal(double load_bal)
 {
+    load_bal_ = load_bal;
     HYPRE_ParaSailsSetLoadbal(GetSolver(), load_bal);
 }
 
 void ParaSails::SetReuse(int reuse)
 {
+    reuse_ = reuse;
     HYPRE_ParaSailsSetReuse(GetSolver(), reuse);
 }
 
 void ParaSails::SetLogging(int logging)
 {
+    logging_ = logging;
     HYPRE_ParaSailsSetLogging(GetSolver(), logging);
 }
 
-- 
2.43.0


From 9c5a0ec150e5eed4ecf841fb3d5b5d433c4424d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 34/48] fix: copies of a ParCG lost its tolerance and iteration
 limit

---
 modules/parlinalgcpp/include/parsolvers.hpp |  3 +++
 modules/parlinalgcpp/src/parsolvers.cpp     | 10 +++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index dd67010..797fd45 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -215,6 +215,9 @@ class ParCG: public ParSolver
         ~ParCG() = default;
 
         void EnableDiagScaling();
+
+    private:
+        void Init();
 };
 
 class ParDiagScale: public ParSolver
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index bff60f4..0eb6197 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -275,6 +275,11 @@ ParCG::ParCG(ParMatrix A, size_t max_iter,
     : ParSolver(std::move(A), max_iter, tol, verbose,
                 &HYPRE_ParCSRPCGCreate, &HYPRE_ParCSRPCGDestroy,
                 &HYPRE_ParCSRPCGSetup, &HYPRE_ParCSRPCGSolve)
+{
+    Init();
+}
+
+void ParCG::Init()
 {
     auto& solver_ = ParSolver::GetSolver();
 
@@ -299,7 +304,10 @@ ParCG::ParCG(ParMatrix A, const ParSolver& M, size_t max_iter,
 ParCG::ParCG(const ParCG& other)
     : ParSolver(other)
 {
-    HypreSetup();
+    if (other.GetSolver())
+    {
+        Init();
+    }
 }
 
 ParCG::ParCG(ParCG&& other) noexcept
-- 
2.43.0


From eca0011d65a29f6f16541539a07aba2d359fdcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 35/48] fix: ParCG called the setup of its preconditioner in
 place of its solve

---
 modules/parlinalgcpp/include/parsolvers.hpp |  4 ++
 modules/parlinalgcpp/src/parsolvers.cpp     | 49 +++++++++++++++++----
 2 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index 797fd45..3b409d5 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -218,6 +218,10 @@ class ParCG: public ParSolver
 
     private:
         void Init();
+        void SetPrecond();
+
+        const ParSolver* M_ = nullptr;
+        bool diag_scaling_ = false;
 };
 
 class ParDiagScale: public ParSolver
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 0eb6197..0b15f03 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -294,19 +294,50 @@ ParCG::ParCG(ParMatrix A, const ParSolver& M, size_t max_iter,
              double tol, bool verbose)
     : ParCG(std::move(A), max_iter, tol, verbose)
 {
-    auto& solver_ = ParSolver::GetSolver();
+    M_ = &M;
+
+    SetPrecond();
+}
+
+// Apply the preconditioner through its own Mult, smoothers have no hypre solver
+static HYPRE_Int ApplyPrecond(HYPRE_Solver precond, HYPRE_ParCSRMatrix,
+                              HYPRE_ParVector b, HYPRE_ParVector x)
+{
+    const auto* M = reinterpret_cast<const ParSolver*>(precond);
 
-    HYPRE_ParCSRPCGSetPrecond(solver_,
-                              M.GetSetupFn(), M.GetSolveFn(), M.GetSolver());
+    const linalgcpp::VectorView<double> b_vect(hypre_VectorData(hypre_ParVectorLocalVector(b)), M->Cols());
+    linalgcpp::VectorView<double> x_vect(hypre_VectorData(hypre_ParVectorLocalVector(x)), M->Rows());
+
+    M->Mult(b_vect, x_vect);
+
+    return 0;
 }
 
+void ParCG::SetPrecond()
+{
+    auto& solver_ = ParSolver::GetSolver();
+
+    if (diag_scaling_)
+    {
+        HYPRE_ParCSRPCGSetPrecond(solver_,
+                                  (HYPRE_PtrToParSolverFcn) HYPRE_ParCSRDiagScale,
+                                  (HYPRE_PtrToParSolverFcn) HYPRE_ParCSRDiagScaleSetup,
+                                  nullptr);
+    }
+    else if (M_)
+    {
+        HYPRE_ParCSRPCGSetPrecond(solver_, &ApplyPrecond, &no_setup,
+                                  (HYPRE_Solver) M_);
+    }
+}
 
 ParCG::ParCG(const ParCG& other)
-    : ParSolver(other)
+    : ParSolver(other), M_(other.M_), diag_scaling_(other.diag_scaling_)
 {
     if (other.GetSolver())
     {
         Init();
+        SetPrecond();
     }
 }
 
@@ -325,16 +356,16 @@ ParCG& ParCG::operator=(ParCG other) noexcept
 void swap(ParCG& lhs, ParCG& rhs) noexcept
 {
     swap(static_cast<ParSolver&>(lhs), static_cast<ParSolver&>(rhs));
+
+    std::swap(lhs.M_, rhs.M_);
+    std::swap(lhs.diag_scaling_, rhs.diag_scaling_);
 }
 
 void ParCG::EnableDiagScaling()
 {
-    auto& solver_ = ParSolver::GetSolver();
+    diag_scaling_ = true;
 
-    HYPRE_ParCSRPCGSetPrecond(solver_,
-                              (HYPRE_PtrToParSolverFcn) HYPRE_ParCSRDiagScale,
-                              (HYPRE_PtrToParSolverFcn) HYPRE_ParCSRDiagScaleSetup,
-                              nullptr);
+    SetPrecond();
 }
 
 ParDiagScale::ParDiagScale(ParMatrix A, size_t max_iter,
-- 
2.43.0


From 1d9535f4c08cb4b3b97776d805ff99d4a33afe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 36/48] fix: a moved-from ParSolver was left with uninitialised
 function pointers

---
 modules/parlinalgcpp/src/parsolvers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 0b15f03..b15ef1f 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -51,6 +51,7 @@ ParSolver::ParSolver(const ParSolver& other)
 }
 
 ParSolver::ParSolver(ParSolver&& other)
+    : ParSolver()
 {
     swap(*this, other);
 }
-- 
2.43.0


From 8216d74706e65096c0dce075f8972cace26d1c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 37/48] fix: ArgParser set an option to zero when its value
 could not be converted

---
 include/argparser.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/argparser.hpp b/include/argparser.hpp
index 5128289..67d2ad9 100644
--- a/include/argparser.hpp
+++ b/include/argparser.hpp
@@ -77,7 +77,17 @@ void ArgParser::Parse(T& arg, const std::string& flag, const std::string& help)
 
     if (values_.find(flag) != values_.end())
     {
-        std::stringstream(values_[flag]) >> arg;
+        std::stringstream value(values_[flag]);
+        T val = arg;
+
+        if ((value >> val) && (value >> std::ws).eof())
+        {
+            arg = val;
+        }
+        else
+        {
+            errors_.push_back(flag + " can not be set to \"" + values_[flag] + "\"!");
+        }
     }
 
     if (seen_values_.find(flag) == seen_values_.end())
-- 
2.43.0


From 654a786973fc96300a9d4e8cd6c46745131922de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 38/48] fix: ArgParser cut strings at the first blank and
 aborted on empty ones

---
 include/argparser.hpp |  3 +++
 src/argparser.cpp     | 21 ++++++++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/argparser.hpp b/include/argparser.hpp
index 67d2ad9..952d6fb 100644
--- a/include/argparser.hpp
+++ b/include/argparser.hpp
@@ -70,6 +70,9 @@ class ArgParser
 template <>
 void ArgParser::Parse(bool& arg, const std::string& flag, const std::string& help) const;
 
+template <>
+void ArgParser::Parse(std::string& arg, const std::string& flag, const std::string& help) const;
+
 template <typename T>
 void ArgParser::Parse(T& arg, const std::string& flag, const std::string& help) const
 {
diff --git a/src/argparser.cpp b/src/argparser.cpp
index 0665c54..8ca576d 100644
--- a/src/argparser.cpp
+++ b/src/argparser.cpp
@@ -25,7 +25,6 @@ ArgParser::ArgParser(int argc, const char* const* argv)
         };
 
         entries.push_back(argv[i]);
-        assert(entries.back().size() > 0);
     }
 
     for (auto iter = entries.begin(); iter != entries.end(); /* empty */)
@@ -142,6 +141,26 @@ void ArgParser::Parse(bool& arg, const std::string& flag, const std::string& hel
     }
 }
 
+template <>
+void ArgParser::Parse(std::string& arg, const std::string& flag, const std::string& help) const
+{
+    help_[flag] = help;
+
+    if (values_.find(flag) != values_.end())
+    {
+        arg = values_[flag];
+    }
+
+    if (seen_values_.find(flag) == seen_values_.end())
+    {
+        seen_values_[flag] = arg;
+    }
+    else
+    {
+        errors_.push_back(flag + " requested to be parsed multiple times!");
+    }
+}
+
 bool ArgParser::IsGood() const
 {
     return (errors_.size() == 0 && !need_help_);
-- 
2.43.0


From 5c4b521d35608141eed905ae0952eac2163b5996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 39/48] fix: ArgParser aborted the program on arguments without
 a flag

---
 src/argparser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/argparser.cpp b/src/argparser.cpp
index 8ca576d..219c54c 100644
--- a/src/argparser.cpp
+++ b/src/argparser.cpp
@@ -29,8 +29,13 @@ ArgParser::ArgParser(int argc, const char* const* argv)
 
     for (auto iter = entries.begin(); iter != entries.end(); /* empty */)
     {
-        assert(iter->size() > 0);
-        assert((*iter)[0] == '-');
+        // Value without a flag
+        if (iter->empty() || (*iter)[0] != '-')
+        {
+            errors_.push_back("\"" + *iter + "\" does not belong to a flag!");
+            iter += 1;
+            continue;
+        }
 
         // Regular flagged value
         if ((iter + 1) != entries.end() && !IsFlag(*(iter + 1)))
-- 
2.43.0


From 3fb3458d8e16230669afd0179193ce8458225792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 40/48] fix: ReadMTX took skew-symmetric files and comments
 with the word for symmetric

---
 include/parser.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index a7792c8..3e6622b 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -5,6 +5,8 @@
 #include <memory>
 #include <vector>
 #include <assert.h>
+#include <cctype>
+#include <algorithm>
 #include <fstream>
 #include <limits>
 
@@ -66,6 +68,20 @@ void VerifyCSR(const std::vector<int>& indptr, const std::vector<int>& indices,
     linalgcpp_verify(valid, "Invalid matrix in file: " + file_name);
 }
 
+/// Symmetry stated in the banner of a matrix market file, other comments do not matter
+inline
+void ReadBannerMTX(std::string line, bool& symmetric, bool& skew)
+{
+    std::transform(std::begin(line), std::end(line), std::begin(line),
+                   [](unsigned char c) { return std::tolower(c); });
+
+    if (line.find("%matrixmarket") <= 1)
+    {
+        symmetric = line.find("symmetric") != std::string::npos;
+        skew = line.find("skew-symmetric") != std::string::npos;
+    }
+}
+
 /*! @brief Finish a written file, throw if any part of it could not be written
     @param file file to close
     @param file_name name of the file
@@ -683,11 +699,12 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
     }
 
     bool symmetric = false;
+    bool skew = false;
     std::string line;
 
     while (getline(file, line) && line.size() && line[0] == '%')
     {
-        symmetric |= (line.find("symmetric") != std::string::npos);
+        ReadBannerMTX(line, symmetric, skew);
     }
 
     int rows = 0;
@@ -722,7 +739,7 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
 
         if (symmetric && i != j)
         {
-            coo.Add(j - base, i - base, val);
+            coo.Add(j - base, i - base, skew ? -val : val);
         }
     }
 
@@ -754,11 +771,12 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
     }
 
     bool symmetric = false;
+    bool skew = false;
     std::string line;
 
     while (getline(file, line) && line.size() && line[0] == '%')
     {
-        symmetric |= (line.find("symmetric") != std::string::npos);
+        ReadBannerMTX(line, symmetric, skew);
     }
 
     int rows = 0;
@@ -793,7 +811,7 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
 
         if (symmetric && i != j)
         {
-            coo.Add(j - base, i - base, val);
+            coo.Add(j - base, i - base, skew ? -val : val);
         }
     }
 
-- 
2.43.0


From b7b4aae3e2298c7e7b46aca3674d2c390e188e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:23 +0000
Subject: [PATCH 41/48] fix: MINRES and PMINRES went on until the residual met
 the square of the tolerance

---
 src/solvers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index 56387d2..8099764 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -306,7 +306,7 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
     double sigma = 0;
     double sigma2 = 0;
 
-    double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
+    double tol = std::max(beta * rel_tol_, abs_tol_);
 
     num_iter_ = 0;
 
@@ -465,7 +465,7 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
     double sigma = 0;
     double sigma2 = 0;
 
-    double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
+    double tol = std::max(beta * rel_tol_, abs_tol_);
 
     num_iter_ = 0;
 
-- 
2.43.0


From e23f266f86417fb63a406d36b9327ab8fbce65b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:48 +0000
Subject: [PATCH 42/48] fix: Add and Sub of vectors into an output that held
 NaN or infinity gave NaN

---
 include/vectorview.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vectorview.hpp b/include/vectorview.hpp
index 0a7e721..dd3f07e 100644
--- a/include/vectorview.hpp
+++ b/include/vectorview.hpp
@@ -826,7 +826,9 @@ void Add(T alpha, const VectorView<T>& x, T beta, const VectorView<T>& y, T gamm
 
     for (int i = 0; i < size; ++i)
     {
-        z[i] = (alpha * x[i]) + (beta * y[i]) + (gamma * z[i]);
+        const T sum = (alpha * x[i]) + (beta * y[i]);
+
+        z[i] = (gamma == 0) ? sum : sum + (gamma * z[i]);
     }
 }
 
-- 
2.43.0


From 82c57d60f45c1b490cd262a4af046b6ca59f0646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:19 +0000
Subject: [PATCH 43/48] fix: refuse text files with entries that cannot be read

The readers stopped at the first entry that was incomplete or not a number
and returned what came before it, as if the file ended there.
---
 include/parser.hpp | 54 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 3e6622b..854fae9 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -30,6 +30,25 @@ void CloseInput(std::ifstream& file, const std::string& file_name)
     file.close();
 }
 
+/*! @brief Is there anything but white space left to read?
+    @param input stream to read from
+*/
+inline
+bool MoreInput(std::istream& input)
+{
+    return (input >> std::ws) && input.peek() != std::istream::traits_type::eof();
+}
+
+/*! @brief Throw if the last entry of a file could not be read
+    @param input stream read from
+    @param file_name name of the file
+*/
+inline
+void VerifyEntry(const std::istream& input, const std::string& file_name)
+{
+    linalgcpp_verify(!input.fail(), "Invalid entry in file: " + file_name);
+}
+
 /*! @brief Throw if indices read from a file are not valid matrix indices
     @param i row index
     @param j column index
@@ -113,8 +132,11 @@ std::vector<T> ReadText(const std::string& file_name)
 
     std::vector<T> data;
 
-    for (T val; file >> val; )
+    for (T val; MoreInput(file); )
     {
+        file >> val;
+        VerifyEntry(file, file_name);
+
         data.push_back(val);
     }
 
@@ -311,8 +333,11 @@ SparseMatrix<T> ReadAdjList(const std::string& file_name, bool symmetric = false
     int j;
     T val = 1;
 
-    while (file >> i >> j)
+    while (MoreInput(file))
     {
+        file >> i >> j;
+        VerifyEntry(file, file_name);
+
         VerifyIndices(i, j, file_name);
 
         coo.Add(i, j, val);
@@ -351,8 +376,11 @@ SparseMatrix<T> ReadGraphList(const std::string& file_name)
     int i;
     int j;
 
-    while (file >> i >> j)
+    while (MoreInput(file))
     {
+        file >> i >> j;
+        VerifyEntry(file, file_name);
+
         if (i < j)
         {
             VerifyIndices(i, j, file_name);
@@ -435,8 +463,11 @@ SparseMatrix<T> ReadCooList(const std::string& file_name, bool symmetric = false
     int j;
     T val;
 
-    while (file >> i >> j >> val)
+    while (MoreInput(file))
     {
+        file >> i >> j >> val;
+        VerifyEntry(file, file_name);
+
         VerifyIndices(i, j, file_name);
 
         coo.Add(i, j, val);
@@ -520,8 +551,11 @@ SparseMatrix<T> ReadTable(const std::string& file_name)
     {
         std::stringstream stream(line);
 
-        for (int index; stream >> index; )
+        for (int index; MoreInput(stream); )
         {
+            stream >> index;
+            VerifyEntry(stream, file_name);
+
             VerifyIndices(0, index, file_name);
             indices.push_back(index);
         }
@@ -727,8 +761,11 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
     int j;
     T val;
 
-    while (file >> i >> j >> val)
+    while (MoreInput(file))
     {
+        file >> i >> j >> val;
+        VerifyEntry(file, file_name);
+
         linalgcpp_verify(i >= base && i - base < rows && j >= base && j - base < cols,
                          "Invalid index in file: " + file_name);
         linalgcpp_verify(!symmetric || (j - base < rows && i - base < cols),
@@ -799,8 +836,11 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
     int j;
     T val = 1.0;
 
-    while (file >> i >> j)
+    while (MoreInput(file))
     {
+        file >> i >> j;
+        VerifyEntry(file, file_name);
+
         linalgcpp_verify(i >= base && i - base < rows && j >= base && j - base < cols,
                          "Invalid index in file: " + file_name);
         linalgcpp_verify(!symmetric || (j - base < rows && i - base < cols),
-- 
2.43.0


From 5b72eaf5381d517920c44e7325e52fc3620b3202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 44/48] fix: VectorView<double>::Normalize threw or crashed in
 optimised programs

Its specialisation was not declared in the header, so that users of it
instantiated the generic function, which always throws.
---
 include/vectorview.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vectorview.hpp b/include/vectorview.hpp
index dd3f07e..2e202f6 100644
--- a/include/vectorview.hpp
+++ b/include/vectorview.hpp
@@ -802,6 +802,9 @@ void VectorView<T>::Normalize()
     throw std::runtime_error("Cannot normalize unless double!");
 }
 
+template <>
+void VectorView<double>::Normalize();
+
 /*! @brief Subtract a constant vector set to the average
     from this vector: x_i = x_i - mean(x)
     @param vect vector to subtract average from
-- 
2.43.0


From 76e0ba0fe3db68f652d32221024bdb04a7e49fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 45/48] fix: EigenSolver failed on multiples of the identity
 with a small norm

Inverse iteration is not scale invariant there.  Bring the tridiagonal
matrix to a norm of about one by a power of two, which is exact.
---
 src/eigensolver.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index 5a1b9cf..521909a 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -119,10 +119,14 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
     evects.SetSize(n, m);
     //std::vector<double> evect_data(n * m);
 
-    const bool zero = std::all_of(std::begin(d_), std::begin(d_) + n, [](double val) { return val == 0.0; }) &&
-                      std::all_of(std::begin(e_), std::begin(e_) + n - 1, [](double val) { return val == 0.0; });
+    double norm = 0.0;
 
-    if (zero)
+    for (int i = 0; i < n; ++i)
+    {
+        norm = std::max({norm, std::fabs(d_[i]), i + 1 < n ? std::fabs(e_[i]) : 0.0});
+    }
+
+    if (norm == 0.0)
     {
         // Inverse iteration scales by the norm of T.  Any basis will do.
         evects = 0.0;
@@ -135,9 +139,20 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
         return;
     }
 
+    // Inverse iteration fails on multiples of the identity with a small norm
+    int exponent = 0;
+    std::frexp(norm, &exponent);
+
+    const auto scale = [exponent](double val) { return std::ldexp(val, -exponent); };
+    auto scaled_evals = evals;
+
+    std::transform(std::begin(d_), std::begin(d_) + n, std::begin(d_), scale);
+    std::transform(std::begin(e_), std::begin(e_) + n - 1, std::begin(e_), scale);
+    std::transform(std::begin(evals), std::end(evals), std::begin(scaled_evals), scale);
+
     // Calculate Eigenvectors of T
     dstein_(&n, d_.data(), e_.data(),
-            &m, evals.data(), iblock_.data(),
+            &m, scaled_evals.data(), iblock_.data(),
             isplit_.data(), evects.GetData(), &n,
             work_.data(), iwork_.data(), ifail_.data(),
             &info_);
-- 
2.43.0


From 44d1c80c08bfb2e7727f835788632a8d33482644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:18 +0000
Subject: [PATCH 46/48] fix: printing to a stream dropped text silently when
 memory ran out

---
 include/blockmatrix.hpp | 1 +
 src/densematrix.cpp     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index d5d3d47..f2edfa8 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -309,6 +309,7 @@ void BlockMatrix<T>::Print(const std::string& label, std::ostream& out) const
             const auto& mat = A_[i][j];
 
             std::stringstream block_label;
+            block_label.exceptions(std::ios_base::badbit);
             block_label << "block (" << i << "," << j << ")";
 
             mat.Print(block_label.str(), out);
diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 4deb1a8..a90d5c3 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -117,6 +117,7 @@ void DenseMatrix::SetSize(int rows, int cols, double val)
 void DenseMatrix::Print(const std::string& label, std::ostream& out, int width, int precision) const
 {
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit);
     ss << label << "\n";
 
     for (int i = 0; i < rows_; ++i)
-- 
2.43.0


From 9a65ab84931aba07f5d4b05913137303c2e3f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 47/48] fix: comparing with a NaN no longer says the values are
 equal

---
 include/vectorview.hpp | 2 +-
 src/densematrix.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vectorview.hpp b/include/vectorview.hpp
index 2e202f6..6d4528c 100644
--- a/include/vectorview.hpp
+++ b/include/vectorview.hpp
@@ -663,7 +663,7 @@ bool operator==(const VectorView<T>& lhs, const VectorView<U>& rhs)
 
     for (int i = 0; i < size; ++i)
     {
-        if (std::fabs(lhs[i] - rhs[i]) > tol)
+        if (lhs[i] != rhs[i] && !(std::fabs(lhs[i] - rhs[i]) <= tol))
         {
             return false;
         }
diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index a90d5c3..878a9cd 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -358,7 +358,7 @@ bool DenseMatrix::operator==(const DenseMatrix& other) const
     {
         for (int i = 0; i < rows_; ++i)
         {
-            if (std::fabs((*this)(i, j) - other(i, j)) > tol)
+            if ((*this)(i, j) != other(i, j) && !(std::fabs((*this)(i, j) - other(i, j)) <= tol))
             {
                 return false;
             }
-- 
2.43.0


From dad4209267e2ad88c7011dcafe84cf354bac03e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:38 +0000
Subject: [PATCH 48/48] fix: EigenSolver returned dependent eigenvectors when
 several eigenvalues are nearly zero

---
 src/eigensolver.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index 521909a..86398e8 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -150,6 +150,15 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
     std::transform(std::begin(e_), std::begin(e_) + n - 1, std::begin(e_), scale);
     std::transform(std::begin(evals), std::end(evals), std::begin(scaled_evals), scale);
 
+    // Inverse iteration separates close eigenvalues by a multiple of their own
+    // magnitude, which is no separation at all for those that are nearly zero
+    const double separation = 10.0 * std::numeric_limits<double>::epsilon();
+
+    for (int i = 1; i < n; ++i)
+    {
+        scaled_evals[i] = std::max(scaled_evals[i], scaled_evals[i - 1] + separation);
+    }
+
     // Calculate Eigenvectors of T
     dstein_(&n, d_.data(), e_.data(),
             &m, scaled_evals.data(), iblock_.data(),
-- 
2.43.0

