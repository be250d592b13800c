From b6dfbf064b139d6a2a18d9b01cba8d76fdf9c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:17 +0000
Subject: [PATCH 01/16] fix: write the header with write_all, so that a short
 or interrupted write is finished

---
 src/io/file_writer.rs | 72 ++++++++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 299c974..58176b3 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -469,9 +469,11 @@ impl<'a> FileWriter<'a> {
         self.output_file.seek(SeekFrom::Start(0))?;
         let mut num_bytes = 0;
         // the magic word
-        num_bytes += self.output_file.write("CDF".as_bytes())?;
+        self.output_file.write_all("CDF".as_bytes())?;
+        num_bytes += "CDF".len();
         //the version number
-        num_bytes += self.output_file.write(&[header_def.version.clone() as u8])?;
+        self.output_file.write_all(&[header_def.version.clone() as u8])?;
+        num_bytes += 1;
         // the size of the *unlimited-size* dimension
         let num_records: u32 = match header_def.data_set.unlimited_dim.as_ref() {
             None => 0,  // No unlimited-size dim is defined
@@ -485,7 +487,8 @@ impl<'a> FileWriter<'a> {
             }
         };
         let bytes: [u8; 4] = num_records.to_be_bytes();
-        num_bytes += self.output_file.write(&bytes)?;
+        self.output_file.write_all(&bytes)?;
+        num_bytes += bytes.len();
         // the list of the dimensions
         num_bytes += FileWriter::write_dims_list(&mut self.output_file, &header_def.data_set.dims)?;
         // the list of the global attributes
@@ -498,7 +501,8 @@ impl<'a> FileWriter<'a> {
         num_bytes += FileWriter::write_vars_list(&mut self.output_file, &data_set_metadata.vars_metadata)?;
         let zero_padding_size: &usize = &data_set_metadata.header_zero_padding_size;
         for _ in 0..*zero_padding_size {
-            num_bytes +=  self.output_file.write(&[0_u8])?;
+            self.output_file.write_all(&[0_u8])?;
+            num_bytes += 1;
         }
         Ok(num_bytes)
     }
@@ -510,12 +514,15 @@ impl<'a> FileWriter<'a> {
 
         // Write the number of useful bytes
         let bytes: [u8; 4] = (name_bytes.len() as i32).to_be_bytes();
-        num_bytes += out_stream.write(&bytes)?;
+        out_stream.write_all(&bytes)?;
+        num_bytes += bytes.len();
         // Write the name
-        num_bytes += out_stream.write(name_bytes)?;
+        out_stream.write_all(name_bytes)?;
+        num_bytes += name_bytes.len();
         // Write the zero padding bytes
         if zero_padding_size > 0 {
-            num_bytes += out_stream.write(&vec![0_u8; zero_padding_size])?;
+            out_stream.write_all(&vec![0_u8; zero_padding_size])?;
+            num_bytes += zero_padding_size;
         }
 
         Ok(num_bytes)
@@ -523,7 +530,8 @@ impl<'a> FileWriter<'a> {
 
     fn write_data_type<T: Write>(out_stream: &mut T, data_type: DataType) -> Result<usize, std::io::Error> {
         let bytes: [u8; 4] = (data_type as i32).to_be_bytes();
-        let num_bytes: usize = out_stream.write(&bytes)?;
+        out_stream.write_all(&bytes)?;
+        let num_bytes: usize = bytes.len();
         Ok(num_bytes)
     }
 
@@ -537,23 +545,27 @@ impl<'a> FileWriter<'a> {
                 DimensionSize::Fixed(fixed_size) => fixed_size,
             };
             let bytes: [u8; 4] = (dim_size as i32).to_be_bytes();
-            num_bytes += out_stream.write(&bytes)?;
+            out_stream.write_all(&bytes)?;
+            num_bytes += bytes.len();
 
             Ok(num_bytes)
         }
         let mut num_bytes: usize = 0;
         if dims_list.is_empty() {
             // Write the ABSENT_TAG
-            num_bytes += out_stream.write(&ABSENT_TAG)?;
+            out_stream.write_all(&ABSENT_TAG)?;
+            num_bytes += ABSENT_TAG.len();
         }
         else {
             // Write the DIENSION_TAG
-            num_bytes += out_stream.write(&DIMENSION_TAG)?;
+            out_stream.write_all(&DIMENSION_TAG)?;
+            num_bytes += DIMENSION_TAG.len();
 
             // Write the number of dimensions
             let num_dims: usize = dims_list.len();
             let bytes: [u8; 4] = (num_dims as i32).to_be_bytes();
-            num_bytes += out_stream.write(&bytes)?;
+            out_stream.write_all(&bytes)?;
+            num_bytes += bytes.len();
 
             // Write each dimension of the list
             for dim in dims_list {
@@ -572,7 +584,8 @@ impl<'a> FileWriter<'a> {
             // The number of elements
             let num_elements: usize = attr.len();
             let bytes: [u8; 4] = (num_elements as i32).to_be_bytes();
-            num_bytes += out_stream.write(&bytes)?;
+            out_stream.write_all(&bytes)?;
+            num_bytes += bytes.len();
             // The data of the attribute
             num_bytes += match &attr.data {
                 DataVector::I8(slice) => FileWriter::write_chunk_i8(out_stream, slice)?,
@@ -590,15 +603,18 @@ impl<'a> FileWriter<'a> {
 
         if attrs_list.is_empty() {
             // Write the ABSENT_TAG
-            num_bytes += out_stream.write(&ABSENT_TAG)?;
+            out_stream.write_all(&ABSENT_TAG)?;
+            num_bytes += ABSENT_TAG.len();
         }
         else {
             // Write the ATTRIBUTE_TAG
-            num_bytes += out_stream.write(&ATTRIBUTE_TAG)?;
+            out_stream.write_all(&ATTRIBUTE_TAG)?;
+            num_bytes += ATTRIBUTE_TAG.len();
             // Write the number of attributes
             let num_attrs: usize = attrs_list.len();
             let bytes: [u8; 4] = (num_attrs as i32).to_be_bytes();
-            num_bytes += out_stream.write(&bytes)?;
+            out_stream.write_all(&bytes)?;
+            num_bytes += bytes.len();
 
             // Write for each attribute:  its name, data type and data
             for attr in attrs_list {
@@ -615,11 +631,13 @@ impl<'a> FileWriter<'a> {
             // Write the number of dimensions
             let num_dims = var.num_dims();
             let mut bytes: [u8; 4] = (num_dims as i32).to_be_bytes();
-            num_bytes += out_stream.write(&bytes)?;
+            out_stream.write_all(&bytes)?;
+            num_bytes += bytes.len();
             // Write each variable dimension ID
             for dim_id in var_metadata.dim_ids.iter() {
                 bytes = (*dim_id as i32).to_be_bytes();
-                num_bytes += out_stream.write(&bytes)?;
+                out_stream.write_all(&bytes)?;
+                num_bytes += bytes.len();
             }
             // Write variable attributes
             num_bytes += FileWriter::write_attrs_list(out_stream, &var.attrs)?;
@@ -633,16 +651,19 @@ impl<'a> FileWriter<'a> {
                 }
                 (chunk_size as u32).to_be_bytes()
             };
-            num_bytes += out_stream.write(&bytes)?;
+            out_stream.write_all(&bytes)?;
+            num_bytes += bytes.len();
             // Write the `begin_offset`
             match var_metadata.begin_offset {
                 Offset::I32(begin_offset) => {
                     let bytes: [u8; 4] = begin_offset.to_be_bytes();
-                    num_bytes += out_stream.write(&bytes)?;
+                    out_stream.write_all(&bytes)?;
+                    num_bytes += bytes.len();
                 },
                 Offset::I64(begin_offset) => {
                     let bytes: [u8; 8] = begin_offset.to_be_bytes();
-                    num_bytes += out_stream.write(&bytes)?;
+                    out_stream.write_all(&bytes)?;
+                    num_bytes += bytes.len();
                 },
             }
             Ok(num_bytes)
@@ -651,16 +672,19 @@ impl<'a> FileWriter<'a> {
         let mut num_bytes: usize = 0;
         if vars_metadata_list.is_empty() {
             // Write the ABSENT_TAG
-            num_bytes += out_stream.write(&ABSENT_TAG)?;
+            out_stream.write_all(&ABSENT_TAG)?;
+            num_bytes += ABSENT_TAG.len();
         }
         else {
             // Write the VARIABLE_TAG
-            num_bytes += out_stream.write(&VARIABLE_TAG)?;
+            out_stream.write_all(&VARIABLE_TAG)?;
+            num_bytes += VARIABLE_TAG.len();
 
             // Write the number of variables
             let num_vars: usize = vars_metadata_list.len();
             let bytes: [u8; 4] = (num_vars as i32).to_be_bytes();
-            num_bytes += out_stream.write(&bytes)?;
+            out_stream.write_all(&bytes)?;
+            num_bytes += bytes.len();
 
             // Write for each variable :  its name, data type, ...
             for (var, var_metadata) in vars_metadata_list.iter() {
-- 
2.43.0


From 4a8d840fe8c86e5c03ac5f1571fd99d73ed29e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 02/16] fix: load the whole header chunk when opening a file,
 however the reads are split

---
 src/io/file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 4f1fd0c..915c63f 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -294,7 +294,7 @@ impl FileReader {
                 let start: &usize = &old_buf_start;
                 let end: &usize = &new_buf_size;
                 buffer.resize(new_buf_size, 0_u8);
-                let _num_of_bytes = input_file.read(&mut buffer[*start..*end])?;
+                input_file.read_exact(&mut buffer[*start..*end])?;
 
                 let parsing_result: Result<(DataSet, Version, Vec<VariableParsedMetadata>), ReadError>;
                 parsing_result = FileReader::parse_header(&buffer, file_size);
-- 
2.43.0


From 580c60a401b46431656afde8b5fa041bad817baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 03/16] fix: take the file size from the opened file, not from
 its path

---
 src/io/file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 915c63f..21d766e 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -281,7 +281,7 @@ impl FileReader {
             path
         };
         let mut input_file = std::fs::File::open(input_file_path.clone())?;
-        let file_size: usize = std::fs::metadata(&input_file_path)?.len() as usize; 
+        let file_size: usize = input_file.metadata()?.len() as usize;
         
         // Parse the header
         let (data_set, version, vars_info): (DataSet, Version, Vec<VariableParsedMetadata>) = {
-- 
2.43.0


From de63fc08a59e12f7997cfa9dad5dbe3ceced311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 04/16] fix: identify variables by their name, so that NaN
 attributes do not make them unfindable

---
 src/io/file_writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 58176b3..0b19fc8 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -386,7 +386,7 @@ impl<'a> FileWriter<'a> {
             let mut not_written_records: Vec<(&'a Variable, Vec<usize>)> = Vec::with_capacity(num_vars);
             for var in header_def.data_set.vars.iter() {
                 let written_records: Option<&BTreeSet<usize>> = self.written_records.iter()
-                    .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| var == *var_2)
+                    .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| var.name == var_2.name)
                     .map(|(_var_2, written_records): &(&'a Variable, BTreeSet<_>)| written_records);
                 let not_written_record: Vec<usize> = match written_records {
                     None => all_records.clone().into_iter().collect(),
@@ -453,7 +453,7 @@ impl<'a> FileWriter<'a> {
         let mut records_set: BTreeSet<usize> = records.iter().map(|index: &usize| index.clone()).collect();
         // Get already written records for the variable
         let ref mut written_records: Option<&mut BTreeSet<usize>> = self.written_records.iter_mut()
-            .find(|(var_2, _written_records): &&mut (&'a Variable, BTreeSet<usize>)| var == *var_2)
+            .find(|(var_2, _written_records): &&mut (&'a Variable, BTreeSet<usize>)| var.name == var_2.name)
             .map(|(_var_2, written_records): &mut (&'a Variable, BTreeSet<usize>)| written_records);
         // If at least one record has alredy been written
         if let Some(ref mut already_written_records_set) = written_records {
@@ -719,7 +719,7 @@ impl <'a> HeaderDefinition<'a> {
 
     fn get_var_metadata(&self, var: &'a Variable) -> Result<&ComputedVariableMetadata, WriteError> {
         self.data_set_metadata.vars_metadata.iter()
-            .find(|(var_2, _var_metadata): &&(&Variable,  ComputedVariableMetadata)| var == *var_2)
+            .find(|(var_2, _var_metadata): &&(&Variable,  ComputedVariableMetadata)| var.name == var_2.name)
             .map(|(_var, var_metadata): &(&Variable,  ComputedVariableMetadata)| var_metadata)
             .ok_or(WriteError::Unexpected)
     }
-- 
2.43.0


From 2ac26c91f4c1071c4f47fd8226f266d55223024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 05/16] fix: merge the records written by write_var with those
 already written, so that close keeps them

---
 src/io/file_writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 0b19fc8..c92f723 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -93,7 +93,8 @@ macro_rules! impl_write_typed_var {
 
             // Save the records already written
             let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
-            self.written_records.push((var, (0..num_records).collect()));
+            let all_records: Vec<usize> = (0..num_records).collect();
+            self.update_written_records(var, &all_records[..])?;
             Ok(())
         }
     };
-- 
2.43.0


From 667bf8dc7428a05c42b1a26e11ecd0d4d4bba752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:16 +0000
Subject: [PATCH 06/16] fix: pad the attribute values of the header with zeros,
 as the reader and the format require

---
 src/io/file_writer.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index c92f723..c0c9250 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -588,14 +588,20 @@ impl<'a> FileWriter<'a> {
             out_stream.write_all(&bytes)?;
             num_bytes += bytes.len();
             // The data of the attribute
-            num_bytes += match &attr.data {
-                DataVector::I8(slice) => FileWriter::write_chunk_i8(out_stream, slice)?,
-                DataVector::U8(slice) => FileWriter::write_chunk_u8(out_stream, slice)?,
-                DataVector::I16(slice) => FileWriter::write_chunk_i16(out_stream, slice)?,
-                DataVector::I32(slice) => FileWriter::write_chunk_i32(out_stream, slice)?,
-                DataVector::F32(slice) => FileWriter::write_chunk_f32(out_stream, slice)?,
-                DataVector::F64(slice) => FileWriter::write_chunk_f64(out_stream, slice)?,
+            let data_bytes: Vec<u8> = match &attr.data {
+                DataVector::I8(slice) => slice.iter().flat_map(|value: &i8| value.to_be_bytes().to_vec()).collect(),
+                DataVector::U8(slice) => slice.clone(),
+                DataVector::I16(slice) => slice.iter().flat_map(|value: &i16| value.to_be_bytes().to_vec()).collect(),
+                DataVector::I32(slice) => slice.iter().flat_map(|value: &i32| value.to_be_bytes().to_vec()).collect(),
+                DataVector::F32(slice) => slice.iter().flat_map(|value: &f32| value.to_be_bytes().to_vec()).collect(),
+                DataVector::F64(slice) => slice.iter().flat_map(|value: &f64| value.to_be_bytes().to_vec()).collect(),
             };
+            out_stream.write_all(&data_bytes)?;
+            num_bytes += data_bytes.len();
+            // The zero padding bytes (the header is padded with zeros, the data part with fill values)
+            let zero_padding_size: usize = compute_padding_size(data_bytes.len());
+            out_stream.write_all(&vec![0_u8; zero_padding_size])?;
+            num_bytes += zero_padding_size;
 
             Ok(num_bytes)
         }
-- 
2.43.0


From c0cb222474c78cf91c10117e25598ba9b8b470b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:47 +0000
Subject: [PATCH 07/16] fix: a fixed-size variable has exactly one record,
 whatever the number of records of the data set

---
 src/io/file_reader.rs |  2 +-
 src/io/file_writer.rs | 10 ++++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 21d766e..85db290 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -470,7 +470,7 @@ impl FileReader {
         let (_var_index, var): (usize, &Variable) = self.data_set.find_var_from_name(var_name).map_err(|_err|{
             ReadError::VariableNotDefined(String::from(var_name))
         })?;
-        let num_records: usize = self.data_set.num_records().unwrap_or(1); // fixed-size variables haves exaclty one record
+        let num_records: usize = var.num_chunks(); // fixed-size variables haves exaclty one record
         if record_index >= num_records {
             return Err(ReadError::RecordIndexExceeded{index: record_index, num_records: num_records});
         }
diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index c0c9250..46b7502 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -92,8 +92,7 @@ macro_rules! impl_write_typed_var {
             }
 
             // Save the records already written
-            let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
-            let all_records: Vec<usize> = (0..num_records).collect();
+            let all_records: Vec<usize> = (0..var.num_chunks()).collect();  // fixed-size variables have exactly one record
             self.update_written_records(var, &all_records[..])?;
             Ok(())
         }
@@ -110,7 +109,7 @@ macro_rules! impl_write_typed_record {
             if var.data_type != $data_type {
                 return Err(WriteError::VariableMismatchDataType{var_name: var_name.to_owned(), req:var.data_type(), get: $data_type});
             }
-            let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
+            let num_records: usize = var.num_chunks();  // fixed-size variables have exactly one record
             // Check the record index validity
             if record_index >= num_records {
                 return Err(WriteError::RecordIndexExceeded{index: record_index, num_records: num_records});
@@ -380,17 +379,16 @@ impl<'a> FileWriter<'a> {
             None => return Ok(()),
             Some(ref header_def) => header_def,
         };
-        let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
-        let all_records: BTreeSet<usize> = (0..num_records).collect();
         let not_written_records: Vec<(&'a Variable, Vec<usize>)> = {
             let num_vars = header_def.data_set.vars.len();
             let mut not_written_records: Vec<(&'a Variable, Vec<usize>)> = Vec::with_capacity(num_vars);
             for var in header_def.data_set.vars.iter() {
+                let all_records: BTreeSet<usize> = (0..var.num_chunks()).collect();  // fixed-size variables have exactly one record
                 let written_records: Option<&BTreeSet<usize>> = self.written_records.iter()
                     .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| var.name == var_2.name)
                     .map(|(_var_2, written_records): &(&'a Variable, BTreeSet<_>)| written_records);
                 let not_written_record: Vec<usize> = match written_records {
-                    None => all_records.clone().into_iter().collect(),
+                    None => all_records.into_iter().collect(),
                     Some(written_records) => all_records.difference(&written_records).cloned().collect(),
                 };
                 not_written_records.push((var, not_written_record));
-- 
2.43.0


From 959936ea9ab970b77f5551bab7262fe381735133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:50 +0000
Subject: [PATCH 08/16] fix: a failed set_def leaves the writer without
 definition and without header bytes

---
 src/io/file_writer.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 46b7502..79e29f1 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -351,8 +351,14 @@ impl<'a> FileWriter<'a> {
             Some(_) => return Err(WriteError::HeaderAlreadyDefined),
             None => self.header_def = Some(HeaderDefinition::new(data_set, version, header_min_size)?),
         }
-        let _ = self.write_header()?;
-        Ok(())
+        match self.write_header() {
+            Ok(_num_bytes) => Ok(()),
+            Err(write_err) => {
+                // The definition has not been written, then allow to set it again
+                self.header_def = None;
+                Err(write_err)
+            },
+        }
     }
 
     pub fn header_is_defined(&self) -> bool {
@@ -465,6 +471,10 @@ impl<'a> FileWriter<'a> {
 
     fn write_header(&mut self) -> Result<usize, WriteError>{
         let header_def: &HeaderDefinition = self.header_def.as_ref().ok_or(WriteError::HeaderNotDefined)?;
+        // Discard the bytes left by a definition not completely written
+        if self.output_file.seek(SeekFrom::End(0))? > 0 {
+            self.output_file.set_len(0)?;
+        }
         self.output_file.seek(SeekFrom::Start(0))?;
         let mut num_bytes = 0;
         // the magic word
-- 
2.43.0


From 2de42ea858e937abc99cec2b79321dab746d1d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:42 +0000
Subject: [PATCH 09/16] fix: do not pad the records of a single record
 variable, as the format requires

---
 src/data_set.rs       | 18 ++++++++++++++++++
 src/io/file_reader.rs | 10 ++++------
 src/io/file_writer.rs | 43 +++++++++++++++++++++++--------------------
 3 files changed, 45 insertions(+), 26 deletions(-)

diff --git a/src/data_set.rs b/src/data_set.rs
index 63014e2..15e9212 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -1203,6 +1203,24 @@ impl DataSet {
         }
     }
 
+    /// Returns `true` if the chunks of the variable are padded to 4 bytes in the data part of the file.
+    ///
+    /// They always are, except the chunks of a record variable which is the only one of the data set.
+    pub(crate) fn chunks_are_padded(&self, var: &Variable) -> bool {
+        return !var.is_record_var() || self.vars.iter().filter(|var: &&Variable| var.is_record_var()).count() > 1;
+    }
+
+    /// Returns the number of bytes between two consecutive records in the data part of the file.
+    ///
+    /// It is the [record size](struct.DataSet.html#method.record_size), without its padding bytes
+    /// if only one record variable is defined.
+    pub(crate) fn record_stride(&self) -> Option<usize> {
+        match self.vars.iter().find(|var: &&Variable| var.is_record_var()) {
+            Some(var) if !self.chunks_are_padded(var) => Some(var.chunk_len() * var.data_type.size_of()),
+            _ => self.record_size(),
+        }
+    }
+
     /// Returns the number of records stored in data file.
     ///
     /// Returns `None` if the data set has not an *unlimited-size* dimension.
diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 85db290..c16896c 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -404,7 +404,7 @@ impl FileReader {
         let (_, var): (usize, &Variable) = self.data_set.find_var_from_name(var_name).map_err(|_err|{
             ReadError::VariableNotDefined(String::from(var_name))
         })?;
-        let record_size: usize = self.data_set.record_size().unwrap_or(0);
+        let record_stride: usize = self.data_set.record_stride().unwrap_or(0);
         let num_records: usize = self.data_set.num_records().unwrap_or(0);
         let begin_offset: u64 = {
             let var_info: &VariableParsedMetadata = self.find_var_info(var_name).ok_or(ReadError::Unexpected)?;
@@ -435,9 +435,7 @@ impl FileReader {
             }
         }
         else {
-            let chunk_size: usize = var.chunk_size();
-
-            let offset_size: i64 = (record_size + padding_size - chunk_size) as i64;
+            let offset_size: i64 = (record_stride - chunk_len * var.data_type.size_of()) as i64;
             for i in 0_usize..num_records
             {
                 // reader.seek(SeekFrom::)
@@ -477,7 +475,7 @@ impl FileReader {
 
         // Compute the record offset from the start of the NetCDF3 file
         let var_info: &VariableParsedMetadata = self.find_var_info(var_name).ok_or(ReadError::Unexpected)?;
-        let record_offset: u64 = (i64::from(var_info.begin_offset.clone()) as u64) + ((record_index * self.data_set.record_size().unwrap_or(0)) as u64);
+        let record_offset: u64 = (i64::from(var_info.begin_offset.clone()) as u64) + ((record_index * self.data_set.record_stride().unwrap_or(0)) as u64);
         self.input_file.seek(SeekFrom::Start(record_offset))?;
 
         // Read the data
@@ -604,7 +602,7 @@ impl FileReader {
                     // Computation of the number of records
                     let first_begin_offset: usize = record_var_begin_offsets.into_iter().map(|begin_offset: Offset| i64::from(begin_offset) as usize).min().unwrap();
                     let all_records_size: usize = total_file_size - first_begin_offset; // the size allocated for all record data
-                    let record_size: usize = data_set.record_size().ok_or(ReadError::Unexpected)?;
+                    let record_size: usize = data_set.record_stride().ok_or(ReadError::Unexpected)?;
                     if record_size == 0 {  // cannot be zero
                         return Err(ReadError::Unexpected);
                     }
diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 79e29f1..234aec0 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -30,7 +30,7 @@ use crate::{
 macro_rules! impl_write_typed_chunk {
     ($func_name:ident, $prim_type:ty, $nc_fill_value:ident) => {
         /// Write the `$prim_type` slice into the output stream.
-        fn $func_name<T: Write>(out_stream: &mut T, slice: &[$prim_type]) -> Result<usize, std::io::Error>
+        fn $func_name<T: Write>(out_stream: &mut T, slice: &[$prim_type], with_padding: bool) -> Result<usize, std::io::Error>
         {
             // Write the useful bytes
             const SIZE_OF: usize = std::mem::size_of::<$prim_type>();
@@ -42,7 +42,7 @@ macro_rules! impl_write_typed_chunk {
             let mut num_bytes: usize = slice.len() * std::mem::size_of::<$prim_type>();
 
             // Write the padding bytes if necessary
-            let padding_size: usize = compute_padding_size(num_bytes);
+            let padding_size: usize = if with_padding { compute_padding_size(num_bytes) } else { 0 };
             if padding_size > 0 {
                 let nc_fill_bytes: [u8; SIZE_OF] = $nc_fill_value.to_be_bytes();
                 let padding_bytes: Vec<u8> = nc_fill_bytes.to_vec().into_iter().cycle().take(padding_size).collect();
@@ -71,12 +71,13 @@ macro_rules! impl_write_typed_var {
 
             // Write the `$prim_type` data
             let begin_offset: u64 = i64::from(var_metadata.begin_offset.clone()) as u64;
-            match header_def.data_set.record_size() {
+            let with_padding: bool = header_def.data_set.chunks_are_padded(var);
+            match header_def.data_set.record_stride() {
                 None => {  // fixed-size variable
                     self.output_file.seek(SeekFrom::Start(begin_offset))?;
-                    let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, data)?;
+                    let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, data, with_padding)?;
                 },
-                Some(record_size) => {  // record variable
+                Some(record_stride) => {  // record variable
                     let num_chunks: usize = var.num_chunks();
                     let chunk_len: usize = var.chunk_len();
                     // Loop over data chunks
@@ -84,9 +85,9 @@ macro_rules! impl_write_typed_var {
                         let start: usize = i * chunk_len;
                         let end: usize = (i + 1) * chunk_len;
                         let chunk_slice: &[$prim_type] = &data[start..end];
-                        let position: u64 = begin_offset + ((i * record_size) as u64);
+                        let position: u64 = begin_offset + ((i * record_stride) as u64);
                         self.output_file.seek(SeekFrom::Start(position))?;
-                        let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, chunk_slice)?;
+                        let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, chunk_slice, with_padding)?;
                     }
                 }
             }
@@ -119,12 +120,13 @@ macro_rules! impl_write_typed_record {
                 return Err(WriteError::RecordMismatchDataLength{var_name: var.name.clone(), req: var.chunk_len(), get: record.len()});
             }
             let var_metadata: &ComputedVariableMetadata = header_def.get_var_metadata(var)?;
-            let record_size: usize = header_def.data_set.record_size().unwrap_or(0);
+            let record_stride: usize = header_def.data_set.record_stride().unwrap_or(0);
+            let with_padding: bool = header_def.data_set.chunks_are_padded(var);
 
             // Set the output cursor to the record offset
-            let begin_offset: u64 = i64::from(var_metadata.begin_offset.clone()) as u64 + (record_size * record_index) as u64;
+            let begin_offset: u64 = i64::from(var_metadata.begin_offset.clone()) as u64 + (record_stride * record_index) as u64;
             self.output_file.seek(SeekFrom::Start(begin_offset))?;
-            let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, record)?;
+            let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, record, with_padding)?;
 
             // Save the written record
             self.update_written_records(var, &[record_index][..])?;
@@ -136,7 +138,7 @@ macro_rules! impl_write_typed_record {
 macro_rules! impl_write_typed_chunk_nc_fill {
     ($func_name: ident, $prim_type:ty, $nc_fill_value:path) => {
         /// Fill the output stream with the default value [`$nc_fill_value`](constant.$nc_fill_value.html).
-        fn $func_name<T: Write>(out_stream: &mut T, num_values: usize) -> Result<usize, std::io::Error>
+        fn $func_name<T: Write>(out_stream: &mut T, num_values: usize, with_padding: bool) -> Result<usize, std::io::Error>
         {
             // Write the useful bytes
             const SIZE_OF: usize = std::mem::size_of::<$prim_type>();
@@ -147,7 +149,7 @@ macro_rules! impl_write_typed_chunk_nc_fill {
             let mut num_bytes: usize = num_values * std::mem::size_of::<$prim_type>();
 
             // Write the padding bytes if necessary
-            let padding_size: usize = compute_padding_size(num_bytes);
+            let padding_size: usize = if with_padding { compute_padding_size(num_bytes) } else { 0 };
             if padding_size > 0 {
                 let nc_fill_bytes: [u8; SIZE_OF] = $nc_fill_value.to_be_bytes();
                 let padding_bytes: Vec<u8> = nc_fill_bytes.to_vec().into_iter().cycle().take(padding_size).collect();
@@ -402,22 +404,23 @@ impl<'a> FileWriter<'a> {
             not_written_records
         };
 
-        let record_size: usize = header_def.data_set.record_size().unwrap_or(0);
+        let record_stride: usize = header_def.data_set.record_stride().unwrap_or(0);
         for (var, not_written_records) in not_written_records.into_iter() {
             // let num_chunks: usize = var.num_chunks();
             let chunk_len: usize = var.chunk_len();
+            let with_padding: bool = header_def.data_set.chunks_are_padded(var);
             let var_metadata: &ComputedVariableMetadata = header_def.get_var_metadata(var)?;
             let begin_offset: usize = i64::from(var_metadata.begin_offset.clone()) as usize;
             for i in not_written_records.into_iter() {
-                let position: usize = begin_offset + (i * record_size);
+                let position: usize = begin_offset + (i * record_stride);
                 self.output_file.seek(SeekFrom::Start(position as u64))?;
                 let _num_bytes: usize = match var.data_type() {
-                    DataType::I8 => FileWriter::write_chunk_nc_fill_i8(&mut self.output_file, chunk_len),
-                    DataType::U8 => FileWriter::write_chunk_nc_fill_u8(&mut self.output_file, chunk_len),
-                    DataType::I16 => FileWriter::write_chunk_nc_fill_i16(&mut self.output_file, chunk_len),
-                    DataType::I32 => FileWriter::write_chunk_nc_fill_i32(&mut self.output_file, chunk_len),
-                    DataType::F32 => FileWriter::write_chunk_nc_fill_f32(&mut self.output_file, chunk_len),
-                    DataType::F64 => FileWriter::write_chunk_nc_fill_f64(&mut self.output_file, chunk_len),
+                    DataType::I8 => FileWriter::write_chunk_nc_fill_i8(&mut self.output_file, chunk_len, with_padding),
+                    DataType::U8 => FileWriter::write_chunk_nc_fill_u8(&mut self.output_file, chunk_len, with_padding),
+                    DataType::I16 => FileWriter::write_chunk_nc_fill_i16(&mut self.output_file, chunk_len, with_padding),
+                    DataType::I32 => FileWriter::write_chunk_nc_fill_i32(&mut self.output_file, chunk_len, with_padding),
+                    DataType::F32 => FileWriter::write_chunk_nc_fill_f32(&mut self.output_file, chunk_len, with_padding),
+                    DataType::F64 => FileWriter::write_chunk_nc_fill_f64(&mut self.output_file, chunk_len, with_padding),
                 }?;
             }
         }
-- 
2.43.0


From 160059d07c42f11faf9fc9103d2e7dd4fb4f0f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 10/16] fix: refuse a header that defines two variables with
 the same name

---
 src/data_set.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/data_set.rs b/src/data_set.rs
index 15e9212..8889ec9 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -539,16 +539,16 @@ impl DataSet {
             }
             var_dims
         };
-        if self.find_var_from_name(var_name).is_ok()
-        {
-            return Err(InvalidDataSet::VariableAlreadyExists(var_name.to_string()));
-        }
         let var_dims: Vec<Rc<Dimension>> = var_dims.into_iter().map(|ref dim| Rc::clone(dim)).collect();
         self.add_var_using_dim_refs(var_name, var_dims, data_type.clone())?;
         Ok(())
     }
 
     pub(crate) fn add_var_using_dim_refs(&mut self, var_name: &str, var_dims: Vec<Rc<Dimension>>, data_type: DataType) -> Result<&Variable, InvalidDataSet> {
+        if self.find_var_from_name(var_name).is_ok()
+        {
+            return Err(InvalidDataSet::VariableAlreadyExists(var_name.to_string()));
+        }
         let _ = self.vars.push(Variable::new(var_name, var_dims, data_type)?);
         Ok(self.vars.last().unwrap())
     }
-- 
2.43.0


From aeeea7c008f23caf7cb1f0f574255955599efafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 11/16] fix: do not allocate memory for the counts claimed by a
 header before having their bytes

---
 src/io/file_reader.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index c16896c..370f972 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -706,6 +706,11 @@ impl FileReader {
 
     fn parse_typed_data_elements(input: &[u8], num_of_elements: usize, data_type: DataType) -> Result<(&[u8], DataVector), ParseHeaderError>
     {
+        // Check that all the useful bytes are available before allocating memory for them
+        let num_of_bytes: usize = data_type.size_of() * num_of_elements;
+        take(num_of_bytes)(input).map_err(|err: NomError|{
+            ParseHeaderError::new(err, ParseHeaderErrorKind::DataElements)
+        })?;
         // Parsed the useful data
         let (input, data_vector): (&[u8], DataVector) = match data_type {
             DataType::I8 => many_m_n(num_of_elements, num_of_elements, be_i8)(input).map(|(input, data): (&[u8], Vec<i8>)| (input, DataVector::I8(data))),
@@ -719,7 +724,6 @@ impl FileReader {
         })?;
 
         // Parse the zero padding bytes if necessary
-        let num_of_bytes: usize = data_type.size_of() * num_of_elements;
         let (input, _zero_padding_bytes): (&[u8], &[u8]) = FileReader::parse_zero_padding(input, compute_padding_size(num_of_bytes))?;
         Ok((input, data_vector))
     }
@@ -751,7 +755,7 @@ impl FileReader {
             return Ok((input, vec![]));
         }
         let (mut input, num_of_dims): (&[u8], usize) = FileReader::parse_as_usize(input)?;
-        let mut dims_list: Vec<(String, usize)> = Vec::with_capacity(num_of_dims);
+        let mut dims_list: Vec<(String, usize)> = vec![];
         for _ in 0..num_of_dims{
             let (rem_input, dim): (&[u8], (String, usize)) = parse_dim(input)?;
             input = rem_input;
@@ -779,7 +783,7 @@ impl FileReader {
             return Ok((input, vec![]));
         }
         let (mut input, num_of_attrs): (&[u8], usize) = FileReader::parse_as_usize(input)?;
-        let mut attrs_list: Vec<(String, DataVector)> = Vec::with_capacity(num_of_attrs);
+        let mut attrs_list: Vec<(String, DataVector)> = vec![];
         for _ in 0..num_of_attrs
         {
             let (rem_input, attr): (&[u8], (String, DataVector)) = parse_attr(input)?;
@@ -797,7 +801,7 @@ impl FileReader {
                 // number of dimensions
                 let (mut input, num_of_dims): (&[u8], usize) = FileReader::parse_as_usize(input)?;
                 // list of the dimension ids
-                let mut dim_ids_list: Vec<usize> = Vec::with_capacity(num_of_dims);
+                let mut dim_ids_list: Vec<usize> = vec![];
                 for _ in 0..num_of_dims {
                     let(rem_input, dim_id): (&[u8], usize) = FileReader::parse_as_usize(input)?;
                     input = rem_input;
-- 
2.43.0


From 9dee448030308eb1d1073bac84b59f6ebd59b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 12/16] fix: refuse negative offsets and record data that would
 begin after the end of the file

---
 src/io/file_reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 370f972..5dc53cb 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -601,7 +601,7 @@ impl FileReader {
                 else {
                     // Computation of the number of records
                     let first_begin_offset: usize = record_var_begin_offsets.into_iter().map(|begin_offset: Offset| i64::from(begin_offset) as usize).min().unwrap();
-                    let all_records_size: usize = total_file_size - first_begin_offset; // the size allocated for all record data
+                    let all_records_size: usize = total_file_size.checked_sub(first_begin_offset).ok_or(ReadError::ComputationNumberOfRecords)?; // the size allocated for all record data
                     let record_size: usize = data_set.record_stride().ok_or(ReadError::Unexpected)?;
                     if record_size == 0 {  // cannot be zero
                         return Err(ReadError::Unexpected);
@@ -814,12 +814,12 @@ impl FileReader {
         {
             match version {
                 Version::Classic => {
-                    be_i32(input).map(|(input, num_of_bytes): (&[u8], i32)| {
+                    verify(be_i32, |num_of_bytes: &i32| *num_of_bytes >= 0_i32)(input).map(|(input, num_of_bytes): (&[u8], i32)| {
                         (input, Offset::I32(num_of_bytes))
                     })
                 },
                 Version::Offset64Bit => {
-                    be_i64(input).map(|(input, num_of_bytes): (&[u8], i64)| {
+                    verify(be_i64, |num_of_bytes: &i64| *num_of_bytes >= 0_i64)(input).map(|(input, num_of_bytes): (&[u8], i64)| {
                         (input, Offset::I64(num_of_bytes))
                     })
                 },
-- 
2.43.0


From c2862fdef881b898770333fae2ad3d3989f014d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:23 +0000
Subject: [PATCH 13/16] fix: refuse a header whose data sizes or offsets
 overflow

---
 src/data_set/variable.rs | 10 ++++++++++
 src/io/file_reader.rs    | 19 +++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/src/data_set/variable.rs b/src/data_set/variable.rs
index 1eb6ab9..ae574ae 100644
--- a/src/data_set/variable.rs
+++ b/src/data_set/variable.rs
@@ -284,6 +284,16 @@ impl Variable {
         return chunk_size
     }
 
+    /// Returns the size of each chunk (see [chunk_size](struct.Variable.html#method.chunk_size)),
+    /// or `None` if it is too large to be computed.
+    pub(crate) fn checked_chunk_size(&self) -> Option<usize> {
+        let skip_len: usize = if self.is_record_var() { 1 } else { 0 };
+        let chunk_size: usize = self.dims.iter().skip(skip_len).try_fold(self.data_type.size_of(), |product: usize, dim: &Rc<Dimension>| {
+            product.checked_mul(dim.size())
+        })?;
+        chunk_size.checked_add(compute_padding_size(chunk_size))
+    }
+
     /// Returns the number of chunks.
     pub fn num_chunks(&self) -> usize {
         match self.dims.first() {
diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 5dc53cb..7bde892 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -590,6 +590,11 @@ impl FileReader {
             }
         }
 
+        // Check that the sizes of the data can be computed
+        data_set.vars.iter().try_fold(0_usize, |sum: usize, var: &Variable| {
+            sum.checked_add(var.checked_chunk_size()?)
+        }).ok_or(ReadError::Unexpected)?;
+
         if !num_records_is_determinated {
             // Case an *unlimited-size* dim s defined
             if let Some(dim) = data_set.get_unlimited_dim() {
@@ -620,6 +625,20 @@ impl FileReader {
                 }
             }
         }
+
+        // Check that the offsets of all the data can be computed
+        for (var, var_info) in data_set.vars.iter().zip(var_info_list.iter()) {
+            let begin_offset: u64 = i64::from(var_info.begin_offset.clone()) as u64;
+            let data_size: Option<usize> = match var.is_record_var() {
+                false => var.checked_chunk_size(),
+                true => var.num_chunks().checked_mul(data_set.record_stride().unwrap_or(0)),
+            };
+            let end_offset: Option<u64> = data_size.and_then(|data_size: usize| begin_offset.checked_add(data_size as u64));
+            match end_offset {
+                Some(end_offset) if end_offset <= std::i64::MAX as u64 => {},
+                _ => return Err(ReadError::Unexpected),
+            }
+        }
         Ok((data_set, version, var_info_list))
     }
 
-- 
2.43.0


From 1bec543864a4fe8d323fec6fcb80180af6f4c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:26 +0000
Subject: [PATCH 14/16] fix: check that the data are in the file before
 allocating memory for them

---
 src/io/file_reader.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 7bde892..2de6f67 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -417,6 +417,11 @@ impl FileReader {
             compute_padding_size(num_bytes)
         };
         let ref mut input = self.input_file;
+        // Check that the data are in the file before allocating memory for them
+        if var.num_chunks() > 0 {
+            let last_chunk_offset: u64 = begin_offset + ((var.num_chunks() - 1) * record_stride) as u64;
+            FileReader::check_data_end(input, last_chunk_offset + (chunk_len * var.data_type.size_of()) as u64)?;
+        }
         input.seek(SeekFrom::Start(begin_offset))?;
         // memory allocation
         let mut data_vec = DataVector::new(data_type, var.len());
@@ -476,6 +481,8 @@ impl FileReader {
         // Compute the record offset from the start of the NetCDF3 file
         let var_info: &VariableParsedMetadata = self.find_var_info(var_name).ok_or(ReadError::Unexpected)?;
         let record_offset: u64 = (i64::from(var_info.begin_offset.clone()) as u64) + ((record_index * self.data_set.record_stride().unwrap_or(0)) as u64);
+        // Check that the data are in the file before allocating memory for them
+        FileReader::check_data_end(&self.input_file, record_offset + (var.chunk_len() * var.data_type.size_of()) as u64)?;
         self.input_file.seek(SeekFrom::Start(record_offset))?;
 
         // Read the data
@@ -887,6 +894,14 @@ impl FileReader {
         Ok((input, vars_list))
     }
 
+    /// Checks that the file contains all the data located before `end_offset`.
+    fn check_data_end(input_file: &std::fs::File, end_offset: u64) -> Result<(), ReadError> {
+        if end_offset > input_file.metadata()?.len() {
+            return Err(ReadError::IOErrorKind(std::io::ErrorKind::UnexpectedEof));
+        }
+        Ok(())
+    }
+
     fn find_var_info(&self, var_name: &str) -> Option<&VariableParsedMetadata> {
         self.vars_info.iter().find(|var_info| var_info.name == var_name)
     }
-- 
2.43.0


From 8cbdc2530b79712c7a50e7276832a1ec789db37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 15/16] fix: refuse a definition whose data sizes or offsets
 overflow

---
 src/io/file_writer.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 234aec0..0abac92 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -783,19 +783,24 @@ impl<'a> ComputedDataSetMetadata<'a> {
             });
         let partitioned_vars: Vec<(usize, &Variable)> = non_record_vars.into_iter().chain(record_vars).collect();
 
+        // The error returned if a size or an offset is too large to be computed
+        let too_large_err = || match &version {
+            Version::Classic => WriteError::ClassicVersionNotPossible,
+            Version::Offset64Bit => WriteError::Unexpected,
+        };
+
         // Compute the actual header size
         let header_required_size: usize = ComputedDataSetMetadata::compute_header_required_size(data_set, version.clone());
         let header_size: usize = {
-            let mut header_size: usize = std::cmp::max(header_min_size, header_required_size);
-            header_size += compute_padding_size(header_size);
-            header_size
+            let header_size: usize = std::cmp::max(header_min_size, header_required_size);
+            header_size.checked_add(compute_padding_size(header_size)).ok_or_else(too_large_err)?
         };
 
         // Compute the metadata for each variable
         let mut begin_offset: usize = header_size;
         let mut vars_metadata: Vec<(usize, (&Variable, ComputedVariableMetadata))> = vec![];
         for (header_part_pos, var) in partitioned_vars.into_iter() {
-            let chunk_size: usize = var.chunk_size();
+            let chunk_size: usize = var.checked_chunk_size().ok_or_else(too_large_err)?;
             vars_metadata.push((
                 header_part_pos,
                 (
@@ -809,15 +814,25 @@ impl<'a> ComputedDataSetMetadata<'a> {
                                 Offset::I32(offset)
                             },
                             Version::Offset64Bit => {
-                                Offset::I64(begin_offset as i64)
+                                let offset: i64 = i64::try_from(begin_offset).map_err(|_err| WriteError::Unexpected)?;
+                                Offset::I64(offset)
                             }
                         },
                     }
                 )
             ));
-            begin_offset += chunk_size;
+            begin_offset = begin_offset.checked_add(chunk_size).ok_or_else(too_large_err)?;
         }
 
+        // Check that the offset of the end of the data can be computed
+        let records_size: usize = {
+            let num_records: usize = data_set.num_records().unwrap_or(0);
+            num_records.checked_mul(data_set.record_stride().unwrap_or(0)).ok_or_else(too_large_err)?
+        };
+        begin_offset.checked_add(records_size)
+            .filter(|end_offset: &usize| *end_offset <= std::i64::MAX as usize)
+            .ok_or_else(too_large_err)?;
+
         // Retrieve the original position
         vars_metadata.sort_by_key(|(header_part_pos, (_var, _var_metadata)): &(usize, (&Variable, ComputedVariableMetadata))| *header_part_pos);
         // Remove the header positions of the variables
-- 
2.43.0


From 266ab673d17e2914cb2c5bd8562665782fc63916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 16/16] fix: accept the size field of a variable of 2 GiB to 4
 GiB, as the format records it

---
 src/io/file_reader.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 2de6f67..4f5ff8d 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -836,6 +836,18 @@ impl FileReader {
                 Ok((input, dim_ids_list))
         }
 
+        fn parse_chunk_size(input: &[u8]) -> Result<(&[u8], Option<usize>), ParseHeaderError>
+        {
+            // Unlike the other numbers it is not limited to 31 bits: only the sizes larger than 2^32 - 4 bytes are recorded as `u32::MAX`
+            let (input, chunk_size): (&[u8], u32) = be_u32(input).map_err(|err: NomError| {
+                ParseHeaderError::new(err, ParseHeaderErrorKind::NonNegativeI32)
+            })?;
+            match chunk_size {
+                std::u32::MAX => Ok((input, None)),
+                _ => Ok((input, Some(chunk_size as usize))),
+            }
+        }
+
         fn parse_offset(input: &[u8], version: Version) -> Result<(&[u8], Offset), ParseHeaderError>
         {
             match version {
@@ -865,7 +877,7 @@ impl FileReader {
             // data type of the variable
             let (input, data_type): (& [u8], DataType) = FileReader::parse_data_type(input)?;
             // size occupied in each record by the variable (number of bytes)
-            let (input, chunk_size): (&[u8], Option<usize>) = FileReader::parse_as_usize_optional(input)?;
+            let (input, chunk_size): (&[u8], Option<usize>) = parse_chunk_size(input)?;
             // begin offset (number of bytes)
             let (input, begin_offset): (&[u8], Offset) = parse_offset(input, version)?;
             let var_def = VariableParsedMetadata {
-- 
2.43.0

