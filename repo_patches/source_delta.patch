From 2a799a00734481d9b0b20f291200d802f097aeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:04 +0000
Subject: [PATCH 01/18] fix: do not shift Williamson sequences when choosing
 representatives

---
 rust/src/find/find_unique.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index 107f68b..e4611c8 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -190,6 +190,9 @@ pub fn reduce_to_canonical_reps(sequences : &Vec<QuadSeq>, seqtype : SequenceTyp
     let symmetries;
     if matches!(seqtype, SequenceType::QuaternionType) {
         symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift]);
+    } else if matches!(seqtype, SequenceType::Williamson) {
+        // A uniform shift does not keep the sequences symmetric
+        symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_half_shift]);
     } else {
         symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_uniform_half_shift]);
     }
-- 
2.43.0


From 323e8ad50d7fc75572628a3950c3a0fbd70ca1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 02/18] fix: keep one representative per class in
 reduce_to_equivalence_set_dif

---
 rust/src/find/find_unique.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index e4611c8..eb6b075 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -127,6 +127,11 @@ pub fn reduce_to_equivalence_set_dif(sequences : &Vec<QuadSeq>, seqtype : Sequen
     let symmetry_group = generate_symmetry_group(sequences[0].size(), seqtype, equivalences);
     
     for seq in sequences {
+        // Already represented by an equivalent sequence
+        if !res.contains(seq) {
+            continue;
+        }
+
         let mut new_class = generate_equivalence_class_fast(seq, &symmetry_group);
         new_class.remove(seq);
 
-- 
2.43.0


From fe202d5049687cca055d36052ba55f2b9e45badd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 03/18] fix: reducing an empty list up to equivalence gives an
 empty list

---
 rust/src/find/find_unique.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index eb6b075..aedd68e 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -121,6 +121,10 @@ fn find_recursive(will : &mut QuadSeq, size : usize, index : usize, sequences :
 
 // Algorithm 6
 pub fn reduce_to_equivalence_set_dif(sequences : &Vec<QuadSeq>, seqtype : SequenceType, equivalences : &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>) -> Vec<QuadSeq> {
+    if sequences.is_empty() {
+        return vec![];
+    }
+
     let mut res = HashSet::new();
     res.extend(sequences.clone().into_iter());
 
@@ -145,6 +149,10 @@ pub fn reduce_to_equivalence_set_dif(sequences : &Vec<QuadSeq>, seqtype : Sequen
 
 // Algorithm 7
 pub fn reduce_to_equivalence_par(sequences : &Vec<QuadSeq>, seqtype : SequenceType, equivalences : &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>) -> Vec<QuadSeq> {
+    if sequences.is_empty() {
+        return vec![];
+    }
+
     let mut res = HashSet::new();
     let symmetry_group = generate_symmetry_group(sequences[0].size(), seqtype, equivalences);
     let mut count = 0;
@@ -164,7 +172,11 @@ pub fn reduce_to_equivalence_par(sequences : &Vec<QuadSeq>, seqtype : SequenceTy
 // Original algorithm
 pub fn reduce_to_equivalence(sequences : &Vec<QuadSeq>, seqtype : SequenceType, equivalences : &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>) -> Vec<QuadSeq> {
     // This function reduces a set of QTS up to the Sequence equivalence defined in our paper
-    
+
+    if sequences.is_empty() {
+        return vec![];
+    }
+
     let mut classes : Vec<HashSet<QuadSeq>> = vec![];
     let symmetry_group = generate_symmetry_group(sequences[0].size(), seqtype, equivalences);
 
@@ -192,6 +204,10 @@ pub fn reduce_to_equivalence(sequences : &Vec<QuadSeq>, seqtype : SequenceType,
 }
 
 pub fn reduce_to_canonical_reps(sequences : &Vec<QuadSeq>, seqtype : SequenceType) -> Vec<QuadSeq> {
+    if sequences.is_empty() {
+        return vec![];
+    }
+
     let symmetries;
     if matches!(seqtype, SequenceType::QuaternionType) {
         symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift]);
-- 
2.43.0


From ad597dcf48d44ae735989343097622ef7b5ef1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 04/18] fix: HM::dephased normalises the columns of the matrix
 it is building

---
 rust/src/sequences/matrices.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/sequences/matrices.rs b/rust/src/sequences/matrices.rs
index dc35232..7104669 100644
--- a/rust/src/sequences/matrices.rs
+++ b/rust/src/sequences/matrices.rs
@@ -357,7 +357,7 @@ impl HM {
         for inv_col in 0..self.size {
             for row in 0..self.size {
                 let col = self.size - 1 - inv_col;
-                new_mat[row][col] = self.matrix[row][0]*self.matrix[row][col];
+                new_mat[row][col] = new_mat[row][0]*new_mat[row][col];
             }
         }
 
-- 
2.43.0


From c10daeff7977510a24f18be2462d82e0752ee9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 05/18] fix: HM::verify accumulates row products in a type that
 cannot overflow

---
 rust/src/sequences/matrices.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/sequences/matrices.rs b/rust/src/sequences/matrices.rs
index 7104669..ffcc732 100644
--- a/rust/src/sequences/matrices.rs
+++ b/rust/src/sequences/matrices.rs
@@ -457,9 +457,9 @@ impl HM {
                 let row2_vec = self.row(row2);
 
                 // Perform inner product
-                let mut result = 0;
+                let mut result : isize = 0;
                 for i in 0..n {
-                    result += row1_vec[i] * row2_vec[i];
+                    result += (row1_vec[i] * row2_vec[i]) as isize;
                 }
 
                 if result != 0 {
-- 
2.43.0


From bcd2f3be36ff0a1115dbedd5d6bf35a8c549e690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:57 +0000
Subject: [PATCH 06/18] fix: keep one FFT plan per length instead of the first
 length's plan only

---
 rust/src/sequences/fourier.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rust/src/sequences/fourier.rs b/rust/src/sequences/fourier.rs
index a9d35d0..a879f25 100644
--- a/rust/src/sequences/fourier.rs
+++ b/rust/src/sequences/fourier.rs
@@ -4,17 +4,19 @@ use fftw::plan::*;
 use fftw::types::*;
 use itertools::iproduct;
 use num_complex::Complex;
+use std::collections::HashMap;
 use std::sync::{OnceLock, Mutex};
 
-static R2C_PLAN : OnceLock<Mutex<R2CPlan64>> = OnceLock::new();
-static C2R_PLAN : OnceLock<Mutex<C2RPlan64>> = OnceLock::new();
+// A plan only works for the length it was created for, so there is one plan for each length
+static R2C_PLANS : OnceLock<Mutex<HashMap<usize, R2CPlan64>>> = OnceLock::new();
+static C2R_PLANS : OnceLock<Mutex<HashMap<usize, C2RPlan64>>> = OnceLock::new();
 
 pub fn dft_sequence(seq : &Vec<i8>) -> Vec<Complex<f64>>{
     // returns the dft of the sequence
     let n = seq.len();
     
-    let mutex = R2C_PLAN.get_or_init(|| Mutex::new(R2CPlan::aligned(&[n], Flag::MEASURE).expect("Failed to create Mutex for FFTW plan")));
-    let mut plan = mutex.lock().unwrap();
+    let mut plans = R2C_PLANS.get_or_init(|| Mutex::new(HashMap::new())).lock().unwrap();
+    let plan = plans.entry(n).or_insert_with(|| R2CPlan::aligned(&[n], Flag::MEASURE).expect("Failed to create FFTW plan"));
 
     let mut a = AlignedVec::new(n);
     let mut b = AlignedVec::new(n/2+1);
@@ -27,10 +29,8 @@ pub fn dft_sequence(seq : &Vec<i8>) -> Vec<Complex<f64>>{
 }
 
 pub fn inverse_dft(freq: &Vec<Complex<f64>>, n: usize) -> Vec<f64> {
-    let mutex = C2R_PLAN.get_or_init(|| Mutex::new(C2RPlan::aligned(&[n], Flag::MEASURE).expect("Failed to create Mutex for FFTW plan")));
-    let mut plan = mutex.lock().unwrap();
-    
-    //let plan = C2R_PLAN.get_or_init(|| C2RPlan::aligned(&[n], Flag::MEASURE).expect("Failed to create FFT plan"));
+    let mut plans = C2R_PLANS.get_or_init(|| Mutex::new(HashMap::new())).lock().unwrap();
+    let plan = plans.entry(n).or_insert_with(|| C2RPlan::aligned(&[n], Flag::MEASURE).expect("Failed to create FFTW plan"));
     let mut a = AlignedVec::new(n / 2 + 1);
     let mut b = AlignedVec::new(n);
     for i in 0..a.len() {
-- 
2.43.0


From 865980421e1c887fcea1e902bfe5c659bb143475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 07/18] fix: join compares keys in the order in which sort
 arranged the lines

---
 rust/src/find/find_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 933e241..9f5535a 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -761,7 +761,7 @@ pub fn get_line_from(seq : &Option<Result<String, Error>>) -> (String, (usize, u
     assert!(seq.is_some());
 
     let s = seq.as_ref().unwrap().as_ref().expect("Error when reading file").clone();
-    let mut s_parts = s.split("_:_");
+    let mut s_parts = s.split(":_"); // the key keeps its trailing "_", so that keys compare in the order in which the lines are sorted
 
     let line = s_parts.next().expect("Expected something before ':' !").to_string();
     let mut indices_parts = s_parts.next().expect("Expected something after ':' !").split("_");
-- 
2.43.0


From 757ff49cce5406e3832d52917f462f6bd30a5bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 08/18] fix: write result and intermediate files completely or
 abort

---
 rust/src/find/find_with_rowsum.rs        |  4 ++--
 rust/src/find/find_write.rs              |  8 ++++----
 rust/src/main.rs                         | 14 +++++++-------
 rust/src/sequences/matrix_equivalence.rs |  2 +-
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/rust/src/find/find_with_rowsum.rs b/rust/src/find/find_with_rowsum.rs
index 754f541..318612c 100644
--- a/rust/src/find/find_with_rowsum.rs
+++ b/rust/src/find/find_with_rowsum.rs
@@ -84,8 +84,8 @@ pub fn find(p : usize, seqtype : SequenceType) {
                 if equations != "" {
                     let mut f = File::create(path).expect("Invalid file ?");
                     let comment = generate_comment(seq1, &tag1, seq2, &tag2, &rs);
-                    f.write(comment.as_bytes()).expect("Error when writing in the file");
-                    f.write(equations.as_bytes()).expect("Error when writing in the file");
+                    f.write_all(comment.as_bytes()).expect("Error when writing in the file");
+                    f.write_all(equations.as_bytes()).expect("Error when writing in the file");
                     count +=1;
                 }
 
diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 9f5535a..5229f31 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -25,7 +25,7 @@ pub fn write_rowsums(p : usize, seqtype : SequenceType) {
 
     let s = rs.iter().map(|e| quad_to_string(*e)).fold("".to_string(), |a,b| a + &b);
 
-    f.write(s.as_bytes()).expect("Error writing file");
+    f.write_all(s.as_bytes()).expect("Error writing file");
 }
 
 
@@ -89,7 +89,7 @@ pub fn write_sequences(sequences : &Vec<Vec<i8>>, tag : &SequenceTag, folder_pat
     let mut f = File::create(path).expect("Invalid file ?");
 
     for seq in sequences {
-        f.write((sequence_to_string(seq) + &"\n").as_bytes()).expect("Error when writing in the file");
+        f.write_all((sequence_to_string(seq) + &"\n").as_bytes()).expect("Error when writing in the file");
     }
 }
 
@@ -229,7 +229,7 @@ pub fn write_seq_pairs(sequences : (&Vec<Vec<i8>>, &Vec<Vec<i8>>), tags : (&Sequ
         counter += 1;
 
         if counter % 1000 == 0 {
-            f.write(buffer.as_bytes()).expect("Error when writing in the file");
+            f.write_all(buffer.as_bytes()).expect("Error when writing in the file");
             buffer = "".to_string();
         }
 
@@ -245,7 +245,7 @@ pub fn write_seq_pairs(sequences : (&Vec<Vec<i8>>, &Vec<Vec<i8>>), tags : (&Sequ
         println!("WARNING (pair {}{}): CPSD values approximate half-integer with error as small as {}", tags.0.to_string(), tags.1.to_string(), min_half_int_difference_cpsd);
     }
     
-    f.write(buffer.as_bytes()).expect("Error when writing in the file");
+    f.write_all(buffer.as_bytes()).expect("Error when writing in the file");
 
     counter
 }
diff --git a/rust/src/main.rs b/rust/src/main.rs
index 6757cdf..0aeb0d0 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -86,7 +86,7 @@ fn find_unique_williamson_type_of_size(i : usize){
     let path = Path::new(s);
     let mut f = File::create(path).expect("Invalid file ?");
     
-    f.write(result.as_bytes()).expect("Error when writing in the file");
+    f.write_all(result.as_bytes()).expect("Error when writing in the file");
 }
 
 fn find_write_quad_seq(i : usize, seqtype : SequenceType){
@@ -117,8 +117,8 @@ fn find_write_quad_seq(i : usize, seqtype : SequenceType){
     let seq_res_string = result.iter().map(|w| w.to_qs().to_string_raw() + &"\n").fold("".to_string(), |s, t| s + &t);
     let qseq_res_string = result.iter().map(|w| w.to_string() + &"\n").fold("".to_string(), |s, t| s + &t);
 
-    f_seq.write(seq_res_string.as_bytes()).expect("Error when writing in the file");
-    f_qseq.write(qseq_res_string.as_bytes()).expect("Error when writing in the file");
+    f_seq.write_all(seq_res_string.as_bytes()).expect("Error when writing in the file");
+    f_qseq.write_all(qseq_res_string.as_bytes()).expect("Error when writing in the file");
 
     // When doing a Williamson-type enumeration, additionally generate an enumeratation up to QT equivalences for the later Hadamard equivalence check
     if matches!(seqtype, SequenceType::WilliamsonType) {
@@ -163,8 +163,8 @@ fn find_write_quad_seq(i : usize, seqtype : SequenceType){
         let mut f_qseq = File::create(path_qseq).expect("Invalid file ?");
         let seq_res_string = qt_reduced.iter().map(|w| w.to_qs().to_string_raw() + &"\n").fold("".to_string(), |s, t| s + &t);
         let qseq_res_string = qt_reduced.iter().map(|w| w.to_string() + &"\n").fold("".to_string(), |s, t| s + &t);
-        f_seq.write(seq_res_string.as_bytes()).expect("Error when writing in the file");
-        f_qseq.write(qseq_res_string.as_bytes()).expect("Error when writing in the file");
+        f_seq.write_all(seq_res_string.as_bytes()).expect("Error when writing in the file");
+        f_qseq.write_all(qseq_res_string.as_bytes()).expect("Error when writing in the file");
     }
 }
 
@@ -202,7 +202,7 @@ fn convert_qs_to_matrices(seqtype : SequenceType, len : usize) {
                 result += &"\n";
             }
         }
-        f.write(result.as_bytes()).expect("Error when writing in the file");
+        f.write_all(result.as_bytes()).expect("Error when writing in the file");
 
         println!("converted {num_seq} sequences of size {len}. {num_non_commutative} contained non-commuting elements.");
     }
@@ -233,7 +233,7 @@ fn qhm_write_all(seqtype : SequenceType, len : usize) {
     for seq in &equ {
         let qhm = QHM::from_pqs(seq.to_qs()).dephased();
         //assert!(qhm.verify());
-        fout.write((qhm.to_string() + &"\n\n".to_string()).as_bytes()).expect("Error when trying to write to file '{path_out}'");
+        fout.write_all((qhm.to_string() + &"\n\n".to_string()).as_bytes()).expect("Error when trying to write to file '{path_out}'");
     }
 }
 
diff --git a/rust/src/sequences/matrix_equivalence.rs b/rust/src/sequences/matrix_equivalence.rs
index 2af4c58..a13fed4 100644
--- a/rust/src/sequences/matrix_equivalence.rs
+++ b/rust/src/sequences/matrix_equivalence.rs
@@ -118,6 +118,6 @@ pub fn hadamard_equivalence_from_file(pathname : String, seqtype : SequenceType)
         result_string += &"\n";
     }
 
-    result_file.write(result_string.as_bytes()).expect("Error when writing in the file");
+    result_file.write_all(result_string.as_bytes()).expect("Error when writing in the file");
 
 }
-- 
2.43.0


From 42d6855fff9ed3fda6a3dc670e7aea6b74e1d5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:57 +0000
Subject: [PATCH 09/18] fix: abort on unreadable sequence and result files
 instead of skipping them

---
 rust/src/find/find_write.rs |  5 ++---
 rust/src/main.rs            | 41 +++++++++++++++++--------------------
 2 files changed, 21 insertions(+), 25 deletions(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 5229f31..7c26218 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -586,9 +586,8 @@ pub fn file_to_sequences(filename : &String) -> Vec<Vec<i8>> {
     let mut seq = vec![];
 
     for line in read_lines(filename).expect("Error when reading file") {
-        if let Ok(s) = line {
-            seq.push(string_to_sequence(&s));
-        }
+        let s = line.expect("Error when reading file");
+        seq.push(string_to_sequence(&s));
     }
 
     seq
diff --git a/rust/src/main.rs b/rust/src/main.rs
index 0aeb0d0..6148b3f 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -180,32 +180,29 @@ fn convert_qs_to_matrices(seqtype : SequenceType, len : usize) {
     let mut num_non_commutative = 0;
 
     println!("{}", &("./results/pairs/".to_string() + &seqtype.to_string() + &"/find_".to_string() + &len.to_string() + &"/result.seq"));
-    if let Ok(lines) = read_lines(&("./results/pairs/".to_string() + &seqtype.to_string() + &"/find_".to_string() + &len.to_string() + &"/result.seq")) {
-        // Consumes the iterator, returns an (Optional) String
-        let s = &("./results/pairs/".to_string() + &seqtype.to_string() + &"/find_".to_string() + &len.to_string() + &"/result.qhm");
-        let path = Path::new(s);
-        let mut f = File::create(path).expect("Invalid file ?");
-
-        let mut result = "".to_string();
-        for line in lines {
-            if let Ok(pqs) = line {
-                num_seq += 1;
-
-                let mut qhm = QHM::from_pqs(QS::from_str(&pqs));
-                qhm.dephase();
-
-                if qhm.contains_non_commuting_elements() {
-                    num_non_commutative += 1;
-                }
+    let lines = read_lines(&("./results/pairs/".to_string() + &seqtype.to_string() + &"/find_".to_string() + &len.to_string() + &"/result.seq")).expect("Error reading result.seq");
+    let s = &("./results/pairs/".to_string() + &seqtype.to_string() + &"/find_".to_string() + &len.to_string() + &"/result.qhm");
+    let path = Path::new(s);
+    let mut f = File::create(path).expect("Invalid file ?");
 
-                result += &qhm.to_string();
-                result += &"\n";
-            }
+    let mut result = "".to_string();
+    for line in lines {
+        let pqs = line.expect("Error reading line from result.seq");
+        num_seq += 1;
+
+        let mut qhm = QHM::from_pqs(QS::from_str(&pqs));
+        qhm.dephase();
+
+        if qhm.contains_non_commuting_elements() {
+            num_non_commutative += 1;
         }
-        f.write_all(result.as_bytes()).expect("Error when writing in the file");
 
-        println!("converted {num_seq} sequences of size {len}. {num_non_commutative} contained non-commuting elements.");
+        result += &qhm.to_string();
+        result += &"\n";
     }
+    f.write_all(result.as_bytes()).expect("Error when writing in the file");
+
+    println!("converted {num_seq} sequences of size {len}. {num_non_commutative} contained non-commuting elements.");
 }
 
 // Write all found QHM of a given order to qhm.mat, using the expanded list including equivalent matrices
-- 
2.43.0


From 4491310524346f599eeffea29f5d7a4e23c7cfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:57 +0000
Subject: [PATCH 10/18] fix: pre-created pair files carry the names that pair
 generation uses

---
 rust/src/find/find_write.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 7c26218..24cd637 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -348,8 +348,7 @@ pub fn create_rowsum_dirs(folder : String, p : usize, rs : (isize, isize, isize,
     println!("{}",folder_path);
     fs::create_dir_all(&folder_path).expect("Error when creating the dir");
 
-    let (_, indices) = sort(&rs); // we sort the rowsum in decreasing order, and we keep track of their original indices
-    let tags : Vec<SequenceTag> = indices.iter().map(|i| index_to_tag(*i)).collect(); // we convert the indices to their respective tags
+    let tags : Vec<SequenceTag> = vec![SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z];
 
     let path1 : String;
     let path2 : String;
-- 
2.43.0


From 8b55e20fbe951a5dc0cc347c65bcc5e9899d1eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 11/18] fix: matching table keeps the first couple of each
 match data

---
 rust/src/sequences/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/sequences/matching.rs b/rust/src/sequences/matching.rs
index c8e3c2a..e026abe 100644
--- a/rust/src/sequences/matching.rs
+++ b/rust/src/sequences/matching.rs
@@ -271,7 +271,7 @@ pub fn generate_matching_table<'a, 'b>(sequences1 : &'a Vec<Vec<i8>>, sequences2
 
         match match_table.get_mut(&match_data) {
             Some(list) => {list.push((seq1, seq2))}
-            None => {match_table.insert(match_data, vec![]);}
+            None => {match_table.insert(match_data, vec![(seq1, seq2)]);}
         }
     }
 
-- 
2.43.0


From c8efe146c7128c7346443795ee8fb9f27791a71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 12/18] fix: dimension of a tensor product is the product of
 the dimensions

---
 rust/src/sequences/mum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/sequences/mum.rs b/rust/src/sequences/mum.rs
index 83c8070..bdfdfdb 100644
--- a/rust/src/sequences/mum.rs
+++ b/rust/src/sequences/mum.rs
@@ -240,7 +240,7 @@ impl HMUO {
 
 
     pub fn tensor(&self, other : &HMUO) -> HMUO {
-        HMUO {matrix_size : self.matrix_size + other.matrix_size, operator : self.operator.tensor(&other.operator)}
+        HMUO {matrix_size : self.matrix_size * other.matrix_size, operator : self.operator.tensor(&other.operator)}
     }
 
     pub fn to_string(&self) -> String {
-- 
2.43.0


From 3612cc6dd6696d13ea8fb8b59aaff0881db85530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 13/18] fix: scripts report a failed stage and stop

---
 rust/convert_hm.sh  |  6 ++++++
 rust/convert_qhm.sh |  6 ++++++
 rust/driver.sh      | 16 +++++++++++++++-
 rust/join_pairs.sh  |  4 +++-
 rust/pairs.sh       |  9 ++++++++-
 rust/sortpairs.sh   |  4 ++++
 6 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/rust/convert_hm.sh b/rust/convert_hm.sh
index ccd7fc6..d631481 100755
--- a/rust/convert_hm.sh
+++ b/rust/convert_hm.sh
@@ -14,7 +14,13 @@ filename="./results/pairs/$type/find_$n/result.log"
 
 # sorting the files
 start2=`date +%s.%N`
+set -o pipefail
 ./target/release/rust convert hm $type $n | tee -a $filename
+if [ $? -ne 0 ]
+then
+	echo 'ERROR: convert hm exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 end2=`date +%s.%N`
 elapsed=$(echo "$end2 - $start2" | bc)
 printf "Converting to matrices up to Hadamard equivalence took %.2f seconds\n" $elapsed
diff --git a/rust/convert_qhm.sh b/rust/convert_qhm.sh
index 83c1e8d..ec1ebb8 100755
--- a/rust/convert_qhm.sh
+++ b/rust/convert_qhm.sh
@@ -14,7 +14,13 @@ filename="./results/pairs/$type/find_$n/result.log"
 
 # sorting the files
 start2=`date +%s.%N`
+set -o pipefail
 ./target/release/rust convert qhm $type $n | tee -a $filename
+if [ $? -ne 0 ]
+then
+	echo 'ERROR: convert qhm exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 end2=`date +%s.%N`
 elapsed=$(echo "$end2 - $start2" | bc)
 printf "Converting to PQS to QHM took %.2f seconds\n" $elapsed | tee -a $filename
diff --git a/rust/driver.sh b/rust/driver.sh
index b68e9d4..9b80a8e 100755
--- a/rust/driver.sh
+++ b/rust/driver.sh
@@ -25,6 +25,9 @@ then
 	exit 0
 fi
 
+# A pipeline into tee fails when the command before tee fails
+set -o pipefail
+
 type=$1
 n=$2
 
@@ -77,9 +80,10 @@ done
 release_dir="./target/release/rust"
 if [ $use_slurm = false ]; then
 	# Cargo automatically checks if source files have changed before deciding whether to compile
-	cargo build --release
+	cargo build --release || exit 1
 elif [ ! -e $release_dir ]; then
 	echo "ERROR: Binary not found, compile with 'cargo build --release'"
+	exit 1
 fi
 
 filename="$foldername/result.log"
@@ -123,6 +127,11 @@ fi
 if [ $hadamard = true ]; then
 	start2=`date +%s.%N`
 	./target/release/rust convert hm $type $n | tee $filename -a
+	if [ $? -ne 0 ]
+	then
+		echo 'ERROR: convert hm exited unsuccessfully. See log for additional details'
+		exit 1
+	fi
 	end2=`date +%s.%N`
 	elapsed=$(echo "$end2 - $start2" | bc)
 	printf "Converting to matrices up to Hadamard equivalence took %.2f seconds\n" $elapsed | tee $filename -a
@@ -134,6 +143,11 @@ fi
 
 echo "Converting PQS to QHM ..." | tee $filename -a
 ./convert_qhm.sh $type $n
+if [ $? -ne 0 ]
+then
+	echo 'ERROR: convert qhm exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 
 end=`date +%s.%N`
 elapsed=$(echo "$end - $start" | bc)
diff --git a/rust/join_pairs.sh b/rust/join_pairs.sh
index b197c72..21cacd8 100755
--- a/rust/join_pairs.sh
+++ b/rust/join_pairs.sh
@@ -19,8 +19,10 @@ filename="$foldername/result.log"
 # sorting the files
 start2=`date +%s`
 ./target/release/rust join $type $n &>> $filename
+status=$?
 end2=`date +%s`
-if [[ $? -eq 0 ]]; then
+if [[ $status -eq 0 ]]; then
     echo -e "Joining the files together took $((end2 - start2)) seconds. \n\n" >> "./results/pairs/$type/find_$n/result.log"
 fi
+exit $status
 
diff --git a/rust/pairs.sh b/rust/pairs.sh
index 156cba3..9adff5c 100755
--- a/rust/pairs.sh
+++ b/rust/pairs.sh
@@ -63,9 +63,10 @@ done
 release_dir="./target/release/rust"
 if [ $use_slurm = false ]; then
 	# Cargo automatically checks if source files have changed before deciding whether to compile
-	cargo build --release
+	cargo build --release || exit 1
 elif [ ! -e $release_dir ]; then
 	echo "ERROR: Binary not found, compile with 'cargo build --release'"
+	exit 1
 fi
 
 filename="$foldername/result.log"
@@ -78,7 +79,13 @@ fi
 
 # Call rust code
 start=`date +%s`
+set -o pipefail
 ./target/release/rust pairs $type $n $match_option $rowsum_pairing | tee $filename
+if [ $? -ne 0 ]
+then
+	echo 'ERROR: pairs exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 end=`date +%s`
 echo Generating the .pair files took `expr $end - $start` seconds. 
 echo -e Generating the .pair files took `expr $end - $start` seconds. "\n \n" >> $filename
diff --git a/rust/sortpairs.sh b/rust/sortpairs.sh
index b12c1e0..ea2b8d8 100755
--- a/rust/sortpairs.sh
+++ b/rust/sortpairs.sh
@@ -36,6 +36,7 @@ done
 
 export LC_ALL=C
 
+failed=0
 start=`date +%s.%N`
 for dirname in results/pairs/$type/find_$n/*;
 do
@@ -56,6 +57,8 @@ do
 			# If sort was successful, remove .pair files
 			if [ $status -eq 0 ]; then
 				rm $filename
+			else
+				failed=1
 			fi
 		done
 	fi
@@ -64,3 +67,4 @@ done
 end=`date +%s.%N`
 elapsed=$(echo "$end - $start" | bc)
 printf "Total time to sort: %.2f seconds.\n\n" $elapsed | tee $results -a
+exit $failed
-- 
2.43.0


From 23e4939dd1a2279dd8f8a30b971fb87b2e7758ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 14/18] fix: scripts reject unknown options

---
 rust/driver.sh    | 2 +-
 rust/pairs.sh     | 2 +-
 rust/sortpairs.sh | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/driver.sh b/rust/driver.sh
index 9b80a8e..181193f 100755
--- a/rust/driver.sh
+++ b/rust/driver.sh
@@ -62,7 +62,7 @@ while getopts "chsdp:" flag; do
 		c)
 		match_option="correlation"
 		;;
-		/?)
+		\?)
 		echo "Invalid argument(s) passed. Exiting."
 		exit 1
 		;;
diff --git a/rust/pairs.sh b/rust/pairs.sh
index 9adff5c..45cee5f 100755
--- a/rust/pairs.sh
+++ b/rust/pairs.sh
@@ -44,7 +44,7 @@ while getopts "cdsp:" flag; do
 		c)
 		match_option="correlation"
 		;;
-		/?)
+		\?)
 		echo "Invalid argument(s) passed. Exiting."
 		exit 1
 		;;
diff --git a/rust/sortpairs.sh b/rust/sortpairs.sh
index ea2b8d8..4f918e2 100755
--- a/rust/sortpairs.sh
+++ b/rust/sortpairs.sh
@@ -27,7 +27,7 @@ while getopts "s" flag; do
 		s)
 		use_slurm=true
 		;;
-		/?)
+		\?)
 		echo "Invalid argument(s) passed. Exiting."
 		exit 1
 		;;
-- 
2.43.0


From a25ba324f7451a78170b9535cf163efa9d32af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 15/18] fix: the table shows the time of the QT reduction also
 for wts

---
 rust/collect_results.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rust/collect_results.py b/rust/collect_results.py
index 15ae3f7..02024c1 100755
--- a/rust/collect_results.py
+++ b/rust/collect_results.py
@@ -18,15 +18,16 @@ def read_runtimes(result_dir):
     return sum(runtimes)
     
 
-# Get time taken to reduce to QT equivalence
+# Get time taken to reduce to QT equivalence (for wts, the log has the time of the Williamson-type reduction first)
 def get_qt_equivalence_time(result_dir):
     pattern = r'Reducing to equivalence took (\d+(?:\.\d+)?) seconds'
+    time = -1
     with open(result_dir, "r") as file:
         for line in file:
             match = re.search(pattern, line)
             if match:
-                return float(match.group(1))
-        return -1
+                time = float(match.group(1))
+    return time
     
 # Get time taken to reduce to Hadamard equivalence
 def get_hm_equivalence_time(result_dir):
-- 
2.43.0


From db6b69481d8581dd16a9369a5e20bc3d30b53909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:06 +0000
Subject: [PATCH 16/18] fix: equations number the shifted variables from 1

---
 rust/src/sequences/equations.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/src/sequences/equations.rs b/rust/src/sequences/equations.rs
index 3b1cf88..c805be4 100644
--- a/rust/src/sequences/equations.rs
+++ b/rust/src/sequences/equations.rs
@@ -230,7 +230,7 @@ fn generate_equation_autocorrelation(size : usize, offset : usize, mut rightside
             result += "+";
         }
 
-        let index_offset = (index + offset) % size;
+        let index_offset = (index + offset - 1) % size + 1; // variables are numbered from 1
         result += &("4 x".to_string() + &(index).to_string() + &" x" + &index_offset.to_string() + " ");
         result += &("-2 x".to_string() + &(index).to_string() + &" -2 x" + &index_offset.to_string() + " ");
 
@@ -293,7 +293,7 @@ fn equations_nonlinear_crosscorrelation(seq1 : &Vec<i8>, seq2 : &Vec<i8>, op_typ
 
 
 fn generator_left_minus(index : usize, offset : usize, size : usize) -> String {
-    let index_offset = (index + offset) % size;
+    let index_offset = (index + offset - 1) % size + 1; // variables are numbered from 1
 
     let mut result = "".to_string();
     result += &("4 x".to_string() + &(index).to_string() + &" x" + &(index_offset + size).to_string() + " ");
@@ -306,7 +306,7 @@ fn generator_left_minus(index : usize, offset : usize, size : usize) -> String {
 }
 
 fn generator_right_minus(index : usize, offset : usize, size : usize) -> String {
-    let index_offset = (index + offset) % size;
+    let index_offset = (index + offset - 1) % size + 1; // variables are numbered from 1
 
     let mut result = "".to_string();
     result += &("4 x".to_string() + &(index + size).to_string() + &" x" + &index_offset.to_string() + " ");
@@ -319,7 +319,7 @@ fn generator_right_minus(index : usize, offset : usize, size : usize) -> String
 }
 
 fn generator_plus(index : usize, offset : usize, size : usize) -> String {
-    let index_offset = (index + offset) % size;
+    let index_offset = (index + offset - 1) % size + 1; // variables are numbered from 1
 
     let mut result = "".to_string();
     result += &("4 x".to_string() + &(index).to_string() + &" x" + &(index_offset + size).to_string() + " ");
-- 
2.43.0


From 1ca7da599053a3a6ce6e09d7523a1fbb5f8f55ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:06 +0000
Subject: [PATCH 17/18] fix: cross-correlation terms of the equations combine
 both directions

---
 rust/src/sequences/equations.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/sequences/equations.rs b/rust/src/sequences/equations.rs
index c805be4..a9fb5e3 100644
--- a/rust/src/sequences/equations.rs
+++ b/rust/src/sequences/equations.rs
@@ -254,11 +254,11 @@ fn generate_equation_autocorrelation(size : usize, offset : usize, mut rightside
 
 
 fn op_minus(seqa : &Vec<i8>, seqb : &Vec<i8>, offset: usize) -> isize{
-    cross_correlation(seqa, seqb, offset) - cross_correlation(seqa, seqb, offset)
+    cross_correlation(seqa, seqb, offset) - cross_correlation(seqb, seqa, offset)
 }
 
 fn op_plus(seqa : &Vec<i8>, seqb : &Vec<i8>, offset: usize) -> isize{
-    cross_correlation(seqa, seqb, offset) + cross_correlation(seqa, seqb, offset)
+    cross_correlation(seqa, seqb, offset) + cross_correlation(seqb, seqa, offset)
 }
 
 
-- 
2.43.0


From e0f6c00cc29d3a7e9cdbe4caa899323ec844b92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:17 +0000
Subject: [PATCH 18/18] fix: spectral filters allow for rounding at the bound

---
 rust/src/sequences/fourier.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rust/src/sequences/fourier.rs b/rust/src/sequences/fourier.rs
index a879f25..24bff7b 100644
--- a/rust/src/sequences/fourier.rs
+++ b/rust/src/sequences/fourier.rs
@@ -43,6 +43,9 @@ pub fn inverse_dft(freq: &Vec<Complex<f64>>, n: usize) -> Vec<f64> {
 }
 
 
+// A sum that attains the bound exactly may be computed slightly above it, so the filters allow for rounding errors
+const PSD_TOLERANCE : f64 = 1e-6;
+
 pub fn iter_over_filtered_dft<'a>(sequences : &'a Vec<Vec<i8>>, bound : f64) -> impl std::iter::Iterator<Item = &'a Vec<i8>> {
     let bound_sqr = bound * bound;
     sequences.iter()
@@ -63,7 +66,7 @@ pub fn iter_over_filtered_couples<'a>(sequences1 : &'a Vec<Vec<i8>>, sequences2
             let dft1 = dft_sequence(seq1);
             let dft2 = dft_sequence(seq2);
             for (elm1, elm2) in dft1.iter().zip(dft2.iter()) {
-                if elm1.norm_sqr() + elm2.norm_sqr() > bound {return false;}
+                if elm1.norm_sqr() + elm2.norm_sqr() > bound + PSD_TOLERANCE {return false;}
             }
             true
         })
@@ -78,7 +81,7 @@ pub fn iter_over_enumerate_filtered_couples<'a>(sequences1 : &'a Vec<Vec<i8>>, s
             let dft1 = dft_sequence(seq1);
             let dft2 = dft_sequence(seq2);
             for (elm1, elm2) in dft1.iter().zip(dft2.iter()) {                
-                if elm1.norm_sqr() + elm2.norm_sqr() > bound {return false;}
+                if elm1.norm_sqr() + elm2.norm_sqr() > bound + PSD_TOLERANCE {return false;}
             }
             true
         })
@@ -103,7 +106,7 @@ pub fn iter_over_enumerate_filtered_couples_psds<'a>(sequences1: &'a Vec<Vec<i8>
         let norm1: Vec<f64> = dft1.iter().map(|elm| elm.norm_sqr()).collect();
         let norm2: Vec<f64> = dft2.iter().map(|elm| elm.norm_sqr()).collect();
         
-        let bound_exceeded = norm1.iter().enumerate().zip(norm2.iter().enumerate()).any(|((i1, n1), (i2, n2))| i1 != 0 && i2 != 0 && n1 + n2 > bound);
+        let bound_exceeded = norm1.iter().enumerate().zip(norm2.iter().enumerate()).any(|((i1, n1), (i2, n2))| i1 != 0 && i2 != 0 && n1 + n2 > bound + PSD_TOLERANCE);
 
         if bound_exceeded {
             None
-- 
2.43.0

