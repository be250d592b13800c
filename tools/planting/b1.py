W='src/io/file_writer.rs'; R='src/io/file_reader.rs'; D='src/data_set.rs'; V='src/data_set/variable.rs'; E='src/error.rs'
BUGS=[]
def bug(id, property, needs, breaks, edits, demo): BUGS.append(dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,demo=demo))
PRE='''mod shim;
#[allow(unused_imports)]
use netcdf3::*;
'''
bug('c01-records-in-order','C01','records of a record variable written one by one, not in ascending order, and not all of them, before close',
 'close() takes the number of written records for the position from which records are missing: it overwrites acknowledged records with fill values and leaves others unfilled',
 [(W,'''                    Some(written_records) => all_records.difference(&written_records).cloned().collect(),''',
 '''                    // records are appended one after another, the missing ones are the last
                    Some(written_records) => all_records.into_iter().skip(written_records.len()).collect(),''')],
 PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.set_unlimited_dim("t", 4).unwrap();
    ds.add_var_i32("v", &["t"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.write_record_i32("v", 3, &[33]).unwrap();
    w.write_record_i32("v", 1, &[11]).unwrap();
    w.close().unwrap();
    let mut r = FileReader::open("a.nc").unwrap();
    assert_eq!(r.read_var_i32("v").unwrap(), vec![NC_FILL_I32, 11, NC_FILL_I32, 33]);
}
''')
bug('c02-utf8-header-size','C02','a dimension, variable or attribute name with a character of several UTF-8 bytes',
 'the header size is computed from the number of characters of the names, the data begin inside the header or at an unaligned place',
 [(W,'''            let num_bytes_name = name.as_bytes().len();''','''            let num_bytes_name = name.chars().count();''')],
 PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("\\u{e9}l\\u{e9}vation", 2).unwrap();
    ds.add_var_i32("hauteur_\\u{e9}\\u{e9}\\u{e9}\\u{e9}\\u{e9}", &["\\u{e9}l\\u{e9}vation"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.write_var_i32("hauteur_\\u{e9}\\u{e9}\\u{e9}\\u{e9}\\u{e9}", &[1, 2]).unwrap();
    w.close().unwrap();
    let b = std::fs::read("a.nc").unwrap();
    // the name is 18 bytes and 13 characters; header: 8 + 8 + (4+12+4) + 8 + 8 + (4+20) + 8 + 8 + 12
    let header = 8 + 8 + 20 + 8 + 8 + 24 - 2 + 8 + 8 + 12;
    let at = b.len() - 8;
    assert_eq!(&b[at..], &[0, 0, 0, 1, 0, 0, 0, 2]);
    assert_eq!(u32::from_be_bytes([b[at - 4], b[at - 3], b[at - 2], b[at - 1]]) as usize, at, "begin offset, header of about {} bytes", header);
}
''')
bug('c03-first-record-variable','C03','a conforming file of another writer: record count left indeterminate and the record variables not stored in the order of their definition',
 'the number of records is computed from the offset of the first defined record variable and not from the first stored one',
 [(R,'''map(|begin_offset: Offset| i64::from(begin_offset) as usize).min().unwrap();''','''map(|begin_offset: Offset| i64::from(begin_offset) as usize).next().unwrap();''')],
 PRE+'''
fn main() {
    let be = |v: &mut Vec<u8>, x: u32| v.extend(x.to_be_bytes());
    let mut b: Vec<u8> = b"CDF\\x01".to_vec();
    be(&mut b, 0xFFFF_FFFF);
    for x in [10, 1, 1] { be(&mut b, x); }
    b.extend(b"t\\0\\0\\0"); be(&mut b, 0);
    be(&mut b, 0); be(&mut b, 0);
    be(&mut b, 11); be(&mut b, 2);
    let begin = (b.len() + 2 * (8 + 8 + 8 + 4 + 4 + 4)) as u32;
    for (n, off) in [("a", begin + 4), ("b", begin)] {
        be(&mut b, 1); b.extend(n.as_bytes()); b.extend([0, 0, 0]);
        be(&mut b, 1); be(&mut b, 0); be(&mut b, 0); be(&mut b, 0);
        be(&mut b, 4); be(&mut b, 4); be(&mut b, off);
    }
    assert_eq!(b.len() as u32, begin);
    for x in [20, 10, 21, 11, 22, 12] { be(&mut b, x); }
    std::fs::write("a.nc", &b).unwrap();
    let mut r = FileReader::open("a.nc").unwrap();
    assert_eq!(r.read_var_i32("a").unwrap(), vec![10, 11, 12]);
    assert_eq!(r.read_var_i32("b").unwrap(), vec![20, 21, 22]);
}
''')
bug('c04-dim-id','C04','a damaged file in which the dimension identifier of a variable is exactly the number of dimensions',
 'the check of the dimension identifiers is off by one, so that opening the file panics instead of returning an error',
 [(D,'''            .filter(|dim_id: &&usize| self.dims.get(**dim_id).is_none())''','''            .filter(|dim_id: &&usize| **dim_id > self.dims.len())''')],
 PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("x", 2).unwrap();
    ds.add_var_i32("v", &["x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.close().unwrap();
    let mut b = std::fs::read("a.nc").unwrap();
    let at = b.len() - 8 - 24;               // the identifier: before attributes, type, size, offset and data
    assert_eq!(&b[at - 4..at + 4], &[0, 0, 0, 1, 0, 0, 0, 0]);
    b[at + 3] = 1;
    std::fs::write("a.nc", &b).unwrap();
    assert!(FileReader::open("a.nc").is_err());
}
''')
bug('c05-record-u8-short','C05','read_record of a u8 variable while the file loses its end between the size check and the read',
 'the bytes of the record are copied until the end of the file: a record cut short is returned as complete, with zeros',
 [(R,'''            DataVector::U8(ref mut data) => self.input_file.read_exact(&mut data[..]),''',
 '''            DataVector::U8(ref mut data) => {
                let num_bytes: u64 = data.len() as u64;
                std::io::copy(&mut (&self.input_file).take(num_bytes), &mut &mut data[..]).map(|_num_bytes: u64| ())
            },''')],
 PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("x", 8).unwrap();
    ds.add_var_u8("v", &["x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.write_var_u8("v", &[9; 8]).unwrap();
    w.close().unwrap();
    let mut r = FileReader::open("a.nc").unwrap();
    assert_eq!(r.read_record_u8("v", 0).unwrap(), vec![9; 8]);
    let len = std::fs::metadata("a.nc").unwrap().len();
    shim::set(move |c, _, _| { if c == "read" { std::fs::OpenOptions::new().write(true).open("a.nc").unwrap().set_len(len - 4).unwrap(); } shim::Act::Pass });
    assert!(r.read_record_u8("v", 0).is_err());
}
''')
bug('c05-error-kind','C05','a write that fails because the disk is full',
 'the kind of the failure (StorageFull) does not reach the caller',
 [(E,'''        WriteError::IOErrorKind(err.kind())''','''        match err.kind() {
            // a short write: the file is incomplete
            std::io::ErrorKind::StorageFull | std::io::ErrorKind::QuotaExceeded => WriteError::IOErrorKind(std::io::ErrorKind::WriteZero),
            kind => WriteError::IOErrorKind(kind),
        }''')],
 PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_var_i32::<&str>("v", &[]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    shim::set(|c, _, _| if c == "write" { shim::Act::Err(shim::ENOSPC) } else { shim::Act::Pass });
    assert_eq!(w.write_var_i32("v", &[1]), Err(error::WriteError::IOErrorKind(std::io::ErrorKind::StorageFull)));
}
''')
bug('c06-sequential-records','C06','a write_record that fails after some of its bytes, in a sequence of ascending records, and is then repeated',
 'write_record skips the seek when it continues the last record; after a partial failure the file position is elsewhere and the repeated record lands at the wrong place',
 [(W,'''    /// List of already written records of each variable
    written_records: Vec<(&'a Variable, BTreeSet<usize>)>,
}''','''    /// List of already written records of each variable
    written_records: Vec<(&'a Variable, BTreeSet<usize>)>,
    /// End of the last written record
    end_of_record: Option<u64>,
}'''),
 (W,'''            .truncate(true)
            .append(false)
            .open(output_file_path.clone())?;
        Ok(FileWriter{
            output_file: output_file,
            output_file_path: output_file_path,
            header_def: None,
            written_records: vec![],
''','''            .truncate(true)
            .append(false)
            .open(output_file_path.clone())?;
        Ok(FileWriter{
            output_file: output_file,
            output_file_path: output_file_path,
            header_def: None,
            written_records: vec![],
            end_of_record: None,
'''),
 (W,'''            .write(true)
            .create_new(true)
            .open(output_file_path.clone())?;
        Ok(FileWriter{
            output_file: output_file,
            output_file_path: output_file_path,
            header_def: None,
            written_records: vec![],
''','''            .write(true)
            .create_new(true)
            .open(output_file_path.clone())?;
        Ok(FileWriter{
            output_file: output_file,
            output_file_path: output_file_path,
            header_def: None,
            written_records: vec![],
            end_of_record: None,
'''),
 (W,'''            self.output_file.seek(SeekFrom::Start(begin_offset))?;
            let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, record, with_padding)?;
''','''            if self.end_of_record != Some(begin_offset) {
                self.output_file.seek(SeekFrom::Start(begin_offset))?;
            }
            let chunk_size: usize = $write_typed_chunk(&mut self.output_file, record, with_padding)?;
            self.end_of_record = Some(begin_offset + chunk_size as u64);
'''),
 (W,'''            // Write the `$prim_type` data
            let begin_offset: u64 = i64::from(var_metadata.begin_offset.clone()) as u64;
''','''            // Write the `$prim_type` data
            self.end_of_record = None;
            let begin_offset: u64 = i64::from(var_metadata.begin_offset.clone()) as u64;
'''),
 ],
 PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.set_unlimited_dim("t", 3).unwrap();
    ds.add_fixed_dim("x", 2).unwrap();
    ds.add_var_i32("v", &["t", "x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.write_record_i32("v", 0, &[1, 2]).unwrap();
    let mut n = 0;
    shim::set(move |c, _, _| { if c == "write" { n += 1; if n == 2 { return shim::Act::Err(shim::EIO); } } shim::Act::Pass });
    let first = w.write_record_i32("v", 1, &[3, 4]);
    shim::clear();
    if first.is_err() { w.write_record_i32("v", 1, &[3, 4]).unwrap(); }
    w.write_record_i32("v", 2, &[5, 6]).unwrap();
    w.close().unwrap();
    let mut r = FileReader::open("a.nc").unwrap();
    assert_eq!(r.read_var_i32("v").unwrap(), vec![1, 2, 3, 4, 5, 6]);
}
''')
bug('c06-marked-before-written','C06','a write_record that fails after some of its bytes and is not repeated, then close',
 'the record is marked as written before it is: closing leaves the torn record instead of filling it, and success of close is reported for an incomplete file',
 [(W,'''            // Set the output cursor to the record offset
            let begin_offset''','''            // Save the written record
            let mut record_set: BTreeSet<usize> = BTreeSet::new();
            record_set.insert(record_index);
            match self.written_records.iter_mut().find(|(var_2, _)| var.name == var_2.name) {
                Some((_, records)) => records.append(&mut record_set),
                None => self.written_records.push((var, record_set)),
            }

            // Set the output cursor to the record offset
            let begin_offset'''),
  (W,'''            // Save the written record
            self.update_written_records(var, &[record_index][..])?;
            Ok(())''','''            Ok(())''')],
 PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.set_unlimited_dim("t", 2).unwrap();
    ds.add_fixed_dim("x", 2).unwrap();
    ds.add_var_i32("v", &["t", "x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.write_record_i32("v", 0, &[1, 2]).unwrap();
    shim::set(|c, _, _| if c == "write" { shim::Act::Err(shim::EIO) } else { shim::Act::Pass });
    assert!(w.write_record_i32("v", 1, &[3, 4]).is_err());
    shim::clear();
    w.close().unwrap();
    let mut r = FileReader::open("a.nc").unwrap();
    assert_eq!(r.read_var_i32("v").unwrap(), vec![1, 2, NC_FILL_I32, NC_FILL_I32]);
}
''')
bug('c07-record-count-at-close','C07','the writing process dies after records were acknowledged and before close',
 'the header is first written with no record and gets the number of records when the file is closed: acknowledged records are lost by a crash',
 [(W,'''                let num_records: usize = unlim_dim.size();
                if num_records <= (std::i32::MAX as usize) {''','''                let num_records: usize = unlim_dim.size();
                // completed when the file is closed
                if num_records <= (std::i32::MAX as usize) && !self.written_records.is_empty() {'''),
 (W,'''                } else {
                    std::u32::MAX  // indeterminate numbe of records records''','''                } else if num_records <= (std::i32::MAX as usize) {
                    0
                } else {
                    std::u32::MAX  // indeterminate numbe of records records'''),
 (W,'''                }?;
            }
        }
        Ok(())
    }
''','''                }?;
            }
        }
        // The number of records
        if let Some(num_records) = header_def.data_set.num_records() {
            if num_records <= (std::i32::MAX as usize) {
                self.output_file.seek(SeekFrom::Start(4))?;
                self.output_file.write_all(&(num_records as u32).to_be_bytes())?;
            }
        }
        Ok(())
    }
''')],
 PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.set_unlimited_dim("t", 2).unwrap();
    ds.add_var_i32("v", &["t"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.write_var_i32("v", &[7, 8]).unwrap();
    std::mem::forget(w);                      // the process ends here
    let mut r = FileReader::open("a.nc").unwrap();
    assert_eq!(r.data_set().num_records(), Some(2));
    assert_eq!(r.read_var_i32("v").unwrap(), vec![7, 8]);
}
''')
bug('c08-longer-data','C08','write_var of a fixed-size variable with more values than it has',
 'data longer than the variable are accepted and overwrite the variable behind it',
 [(W,'''            if var.len() != data.len() {''','''            if var.len() > data.len() || (var.is_record_var() && var.len() != data.len()) {''')],
 PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("x", 2).unwrap();
    ds.add_var_i32("a", &["x"]).unwrap();
    ds.add_var_i32("b", &["x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.write_var_i32("b", &[3, 4]).unwrap();
    assert!(w.write_var_i32("a", &[1, 2, 99]).is_err());
    w.close().unwrap();
    let mut r = FileReader::open("a.nc").unwrap();
    assert_eq!(r.read_var_i32("b").unwrap(), vec![3, 4]);
}
''')
