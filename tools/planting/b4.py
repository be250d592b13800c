_q={}
exec(open('/verif/tools/planting/q.py').read(), _q)
QE={i:list(e) for i,_,e in _q['Q']}
DEF='''
fn rec(p: &str, recs: usize, n: usize) -> DataSet {
    let _ = p;
    let mut ds = DataSet::new();
    ds.set_unlimited_dim("t", recs).unwrap();
    ds.add_fixed_dim("x", n).unwrap();
    ds.add_var_i32("v", &["t", "x"]).unwrap();
    ds
}
'''
bug('c05-close-enospc','C05','the disk is full while close fills a record other than the first',
 'close succeeds although records are neither written nor filled',QE['close-enospc'],PRE+DEF+'''
fn main() {
    let ds = rec("", 4, 8);
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    let mut n = 0;
    shim::set(move |c, _, _| if c == "write" { n += 1; if n > 16 { shim::Act::Err(shim::ENOSPC) } else { shim::Act::Pass } } else { shim::Act::Pass });
    let res = w.close();
    shim::clear();
    assert!(res.is_err(), "closed, although the disk was full");
}
''')
bug('c06-clear-on-error','C06','two records written, the second write fails once, and is repeated or not',
 'a failed write makes the writer forget the records of the variable written before: close overwrites them with fill values',[(W,'''            self.output_file.seek(SeekFrom::Start(begin_offset))?;
            let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, record, with_padding)?;
''','''            let out_stream = &mut self.output_file;
            let chunk_size: Result<usize, std::io::Error> = out_stream.seek(SeekFrom::Start(begin_offset)).and_then(|_| $write_typed_chunk(out_stream, record, with_padding));
            if let Err(err) = chunk_size {
                self.written_records.retain(|(var_2, _records)| var_2.name != var.name);
                return Err(err.into());
            }
''')],PRE+DEF+'''
fn main() {
    let ds = rec("", 3, 4);
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.write_record_i32("v", 0, &[1, 2, 3, 4]).unwrap();
    let mut once = false;
    shim::set(move |c, _, _| if c == "write" && !once { once = true; shim::Act::Err(shim::EIO) } else { shim::Act::Pass });
    w.write_record_i32("v", 1, &[5; 4]).unwrap_err();
    shim::clear();
    w.write_record_i32("v", 1, &[5; 4]).unwrap();
    w.write_record_i32("v", 2, &[6; 4]).unwrap();
    w.close().unwrap();
    let mut r = FileReader::open("a.nc").unwrap();
    assert_eq!(r.read_record_i32("v", 0).unwrap(), [1, 2, 3, 4]);
}
''')
bug('c15-loop-zero','C15','a write of the padding of the header that transfers nothing, again and again',
 'set_def never returns',QE['loop-zero'],PRE+DEF+'''
fn main() {
    let ds = rec("", 3, 4);
    let mut w = FileWriter::create_new("a.nc").unwrap();
    let mut n = 0;
    shim::set(move |c, _, len| if c == "write" && len == 1 {
        n += 1;
        if n > 100_000 { eprintln!("set_def does not end"); std::process::exit(1); }
        if n > 5 { shim::Act::Short(0) } else { shim::Act::Pass }
    } else { shim::Act::Pass });
    let res = w.set_def(&ds, Version::Classic, 500);
    shim::clear();
    assert!(res.is_err());
}
''')
bug('c12-clamp-records','C12','a reader opening the file beside the writer, after some but not all records were written',
 'the reader shows fewer records than the definition has',[(R,'''        if !num_records_is_determinated {
''','''        // The file does not hold all the records
        let is_cut: bool = {
            let begin_offset: Option<i64> = data_set.vars.iter().zip(var_info_list.iter()).filter(|(var, _)| var.is_record_var()).map(|(_, info)| i64::from(info.begin_offset.clone())).min();
            match (begin_offset, data_set.record_stride()) {
                (Some(begin_offset), Some(stride)) if stride > 0 && total_file_size > begin_offset as usize => {
                    let size: usize = total_file_size - begin_offset as usize;
                    size % stride == 0 && size / stride < num_records
                },
                _ => false,
            }
        };
        if is_cut || !num_records_is_determinated {
''')],PRE+DEF+'''
fn main() {
    let ds = rec("", 6, 4);
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    for i in 0..3 { w.write_record_i32("v", i, &[i as i32; 4]).unwrap(); }
    let r = FileReader::open("a.nc").unwrap();
    assert_eq!(r.data_set().num_records(), Some(6));
    drop(r);
    w.close().unwrap();
}
''')
bug('c16-gap-i32','C16','reading a whole variable whose records are more than 4 GiB apart',
 'the distance to the next record is cut to 32 bits: later records are read from the wrong place',[(R,'input.seek(SeekFrom::Current(offset_size))?;','input.seek(SeekFrom::Current(offset_size as u32 as i64))?;')],PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.set_unlimited_dim("t", 3).unwrap();
    ds.add_fixed_dim("x", 700_000_000).unwrap();
    ds.add_var_i32("v", &["t"]).unwrap();
    ds.add_var_f64("big", &["t", "x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Offset64Bit, 0).unwrap();
    for i in 0..3 { w.write_record_i32("v", i, &[10 + i as i32]).unwrap(); }
    drop(w);        // the large variable is never written: the file has holes
    let mut r = FileReader::open("a.nc").unwrap();
    assert_eq!(r.read_var_i32("v").unwrap(), [10, 11, 12]);
}
''')
bug('c16-close-i32','C16','a record more than 4 GiB behind the first one which close has to fill',
 'the distance of the records is cut to 32 bits while filling',[(W,'self.output_file.seek(SeekFrom::Start(position as u64))?;','self.output_file.seek(SeekFrom::Start((begin_offset as u32 + (position - begin_offset) as u32) as u64))?;')],PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.set_unlimited_dim("t", 3).unwrap();
    ds.add_fixed_dim("x", 700_000_000).unwrap();
    ds.add_var_i32("v", &["t"]).unwrap();
    ds.add_var_f64("big", &["t", "x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Offset64Bit, 0).unwrap();
    // the disk is full when the small variable has been filled
    let mut n = 0;
    shim::set(move |c, _, _| if c == "write" { n += 1; if n > 3 { shim::Act::Err(shim::ENOSPC) } else { shim::Act::Pass } } else { shim::Act::Pass });
    w.close().unwrap_err();
    shim::clear();
    let mut r = FileReader::open("a.nc").unwrap();
    for i in 0..3 { assert_eq!(r.read_record_i32("v", i).unwrap(), [NC_FILL_I32]); }
}
''')
bug('c05-open-error-kind','C05','an I/O error while reading the second or a later block of a long header',
 'opening reports the end of the file instead of the I/O error',[(R,'''                input_file.read_exact(&mut buffer[*start..*end])?;
''','''                let loaded: Result<(), std::io::Error> = input_file.read_exact(&mut buffer[*start..*end]);
                if loaded.is_err() {
                    buffer.truncate(*start);
                }
'''),(R,'''                            if buf_size < file_size {
''','''                            if buf_size == 0 {
                                loaded?;
                                return Err(read_err);
                            }
                            if buf_size < file_size && loaded.is_ok() {
''')],PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("x", 4).unwrap();
    ds.add_global_attr_string("text", &"long ".repeat(500)).unwrap();
    ds.add_var_i32("v", &["x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.close().unwrap();
    let mut n = 0;
    shim::set(move |c, _, _| if c == "read" { n += 1; if n == 2 { shim::Act::Err(shim::EIO) } else { shim::Act::Pass } } else { shim::Act::Pass });
    let res = FileReader::open("a.nc");
    shim::clear();
    match res {
        Err(error::ReadError::IOErrorKind(_)) => {},
        other => panic!("{:?}", other),
    }
}
''')
bug('c10-open-no-trunc','C10','overwriting a file of zeros (as a crash of the machine leaves one) without defining anything, or before the definition',
 'the earlier content survives opening for overwriting',QE['open-no-trunc'],PRE+'''
fn main() {
    std::fs::write("a.nc", vec![0; 3000]).unwrap();
    let w = FileWriter::open("a.nc").unwrap();
    assert_eq!(std::fs::metadata("a.nc").unwrap().len(), 0);
    w.close().unwrap();
    std::fs::write("b.nc", b"something else").unwrap();
    FileWriter::open("b.nc").unwrap().close().unwrap();
    assert_eq!(std::fs::metadata("b.nc").unwrap().len(), 0);
}
''')
bug('c13-rename-coordinate','C13','renaming the dimension of a coordinate variable (a variable of the same name) to an invalid name',
 'the invalid name is accepted, and the written file cannot be opened',QE['utf8-rename'],PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("x", 4).unwrap();
    ds.add_var_i32("x", &["x"]).unwrap();
    let renamed = ds.rename_dim("x", "a/b");
    assert!(renamed.is_err());
    assert!(ds.has_dim("x"));
}
''')
bug('c08-fixed-record-index','C08','writing the record 1 of a fixed-size variable in a data set that has records',
 'the call is accepted and overwrites what lies one record further',QE['record-type-first'],PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.set_unlimited_dim("t", 3).unwrap();
    ds.add_fixed_dim("x", 2).unwrap();
    ds.add_var_i32("f", &["x"]).unwrap();
    ds.add_var_i32("v", &["t", "x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    assert!(w.write_record_i32("f", 1, &[7, 7]).is_err());
    w.close().unwrap();
}
''')
bug('c02-padding-write','C02','a short write exactly in the padding behind the values of a variable',
 'padding bytes are lost',QE['pad-write'],PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("x", 5).unwrap();
    ds.add_var_i8("v", &["x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    shim::set(|c, _, n| if c == "write" && n == 3 { shim::Act::Short(1) } else { shim::Act::Pass });
    w.write_var_i8("v", &[1, 2, 3, 4, 5]).unwrap();
    shim::clear();
    w.close().unwrap();
    let b = std::fs::read("a.nc").unwrap();
    assert_eq!(&b[b.len() - 8..], [1, 2, 3, 4, 5, 0x81, 0x81, 0x81]);
}
''')
bug('c03-padding-required','C03','a file whose last fixed-size variable is not padded at the end of the file',
 'the variable cannot be read although all its values are there',[(R,'''                input.seek(SeekFrom::Current(padding_size as i64))?;
            }
        }
        else {''','''                // Skip the padding bytes
                input.read_exact(&mut [0_u8; 3][..padding_size])?;
            }
        }
        else {''')],PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("x", 5).unwrap();
    ds.add_var_i8("v", &["x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.write_var_i8("v", &[1, 2, 3, 4, 5]).unwrap();
    w.close().unwrap();
    let b = std::fs::read("a.nc").unwrap();
    std::fs::write("b.nc", &b[..b.len() - 3]).unwrap();
    assert_eq!(FileReader::open("b.nc").unwrap().read_var_i8("v").unwrap(), [1, 2, 3, 4, 5]);
}
''')
bug('c06-toggle','C06','a record written twice (a repeated call) before closing',
 'a record written an even number of times counts as unwritten: close overwrites it with fill values',QE['toggle'],PRE+DEF+'''
fn main() {
    let ds = rec("", 3, 4);
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    for _ in 0..2 { w.write_record_i32("v", 1, &[5; 4]).unwrap(); }
    w.close().unwrap();
    assert_eq!(FileReader::open("a.nc").unwrap().read_record_i32("v", 1).unwrap(), [5; 4]);
}
''')
bug('c13-swap-remove','C13','removing a global attribute that has two or more others behind it',
 'the order of the remaining attributes changes',[(D,'Ok(self.attrs.remove(removed_attr_index))','Ok(self.attrs.swap_remove(removed_attr_index))')],PRE+'''
fn main() {
    let mut ds = DataSet::new();
    for k in ["a", "b", "c", "d"] { ds.add_global_attr_string(k, k).unwrap(); }
    ds.remove_global_attr("b").unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.close().unwrap();
    assert_eq!(FileReader::open("a.nc").unwrap().data_set().get_global_attr_names(), ["a", "c", "d"]);
}
''')
bug('c01-nan-payload','C01','an f64 NaN with a payload or a sign, read with the whole variable',
 'every NaN is read as the canonical one',[(R,'''                DataVector::F64(ref mut data) => { input.read_f64_into::<BigEndian>(&mut data[..]) },
''','''                DataVector::F64(ref mut data) => {
                    input.read_f64_into::<BigEndian>(&mut data[..]).map(|_| {
                        data.iter_mut().filter(|value| value.is_nan()).for_each(|value| *value = std::f64::NAN);
                    })
                },
''')],PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("x", 2).unwrap();
    ds.add_var_f64("v", &["x"]).unwrap();
    let v = [f64::from_bits(0x7ff8_0000_dead_beef), 1.0];
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.write_var_f64("v", &v).unwrap();
    w.close().unwrap();
    let b = FileReader::open("a.nc").unwrap().read_var_f64("v").unwrap();
    assert_eq!(b[0].to_bits(), v[0].to_bits());
}
''')
bug('c05-seek-ignored','C05','a failing seek to the second or a later record while a whole variable is written',
 'the values are written at the current position and the call succeeds',QE['seek-ignored'],PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.set_unlimited_dim("t", 2).unwrap();
    ds.add_fixed_dim("x", 2).unwrap();
    ds.add_var_i32("v", &["t", "x"]).unwrap();
    ds.add_var_i32("w", &["t", "x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    let mut n = 0;
    shim::set(move |c, _, _| if c == "lseek" { n += 1; if n == 2 { shim::Act::Err(shim::EIO) } else { shim::Act::Pass } } else { shim::Act::Pass });
    let res = w.write_var_i32("v", &[1, 2, 3, 4]);
    shim::clear();
    assert!(res.is_err());
}
''')
bug('c10-existing-empty','C10','an existing empty file, such as one just created by a competitor that has written nothing yet',
 'creating a new file takes over an existing one: two creators succeed',QE['existing-empty'],PRE+'''
fn main() {
    let _first = FileWriter::create_new("a.nc").unwrap();
    assert!(FileWriter::create_new("a.nc").is_err());
}
''')
bug('c02-header-padding','C02','a minimum header size that is not a multiple of four',
 'the first variable begins at an offset that is not a multiple of four',[(W,'        let mut begin_offset: usize = header_size;','        let mut begin_offset: usize = if header_min_size > header_required_size { header_min_size } else { header_size };')],PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("x", 2).unwrap();
    ds.add_var_f64("v", &["x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 1001).unwrap();
    w.write_var_f64("v", &[1.0, 2.0]).unwrap();
    w.close().unwrap();
    assert_eq!(std::fs::metadata("a.nc").unwrap().len(), 1004 + 16);
}
''')
bug('c11-restat','C11','the path being replaced by a longer file while a file with a header of several blocks is opened',
 'the size of the other file decides how much is read: opening fails',[(R,'let new_buf_size: usize = std::cmp::min(buffer.len() + BUFFER_SIZE, file_size);','let new_buf_size: usize = std::cmp::min(buffer.len() + BUFFER_SIZE, std::cmp::max(file_size, std::fs::metadata(&input_file_path).map_or(0, |meta| meta.len() as usize)));')],PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_global_attr_string("text", &"long ".repeat(300)).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.close().unwrap();
    std::fs::write("other.nc", vec![1; 100_000]).unwrap();
    let mut n = 0;
    shim::set(move |c, _, _| { if c == "read" { n += 1; if n == 1 { std::fs::rename("other.nc", "a.nc").unwrap(); } } shim::Act::Pass });
    let res = FileReader::open("a.nc");
    shim::clear();
    assert_eq!(res.unwrap().data_set().num_global_attrs(), 1);
}
''')
bug('c15-scan-records','C15','reading single records of a variable with many records',
 'every record before the wanted one is visited: the work grows with the record number, not with the data',
 [(R,'''        self.input_file.seek(SeekFrom::Start(record_offset))?;''','''        let begin_offset: u64 = i64::from(var_info.begin_offset.clone()) as u64;
        let record_stride: u64 = self.data_set.record_stride().unwrap_or(0) as u64;
        let mut position: u64 = self.input_file.seek(SeekFrom::Start(begin_offset))?;
        while position < record_offset {
            position = self.input_file.seek(SeekFrom::Start(position + record_stride))?;
        }''')],PRE+DEF+'''
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
fn main() {
    let ds = rec("", 2000, 1);
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.close().unwrap();
    let mut r = FileReader::open("a.nc").unwrap();
    shim::set(|_, _, _| { N.fetch_add(1, Ordering::Relaxed); shim::Act::Pass });
    r.read_record_i32("v", 1999).unwrap();
    shim::clear();
    assert!(N.load(Ordering::Relaxed) < 100, "{} system calls for one value", N.load(Ordering::Relaxed));
}
''')
bug('c09-stale-cache','C09','a record read that fails part-way with an I/O error, repeated',
 'the record counts as cached before it has been read: the repeated call returns zeros',
 [(R,'''    vars_info: Vec<VariableParsedMetadata>
}''','''    vars_info: Vec<VariableParsedMetadata>,
    last_record: Option<(String, usize)>,
    last_bytes: Vec<u8>,
}'''),
  (R,'''            vars_info: vars_info,  // convert the list of tuples to a map
''','''            vars_info: vars_info,  // convert the list of tuples to a map
            last_record: None,
            last_bytes: vec![],
'''),
  (R,'''            DataVector::U8(ref mut data) => self.input_file.read_exact(&mut data[..]),
''','''            DataVector::U8(ref mut data) => {
                // Keep the last record of text
                let key: (String, usize) = (var_name.to_string(), record_index);
                if self.last_record.as_ref() != Some(&key) {
                    self.last_record = Some(key);
                    self.last_bytes = vec![0; data.len()];
                    if let Err(err) = self.input_file.read_exact(&mut self.last_bytes[..]) {
                        return Err(err.into());
                    }
                }
                data.copy_from_slice(&self.last_bytes[..]);
                Ok(())
            },
''')],PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("x", 6).unwrap();
    ds.add_var_u8("v", &["x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.write_var_u8("v", b"sample").unwrap();
    w.close().unwrap();
    let mut r = FileReader::open("a.nc").unwrap();
    let mut once = false;
    shim::set(move |c, _, _| if c == "read" && !once { once = true; shim::Act::Err(shim::EIO) } else { shim::Act::Pass });
    r.read_record_u8("v", 0).unwrap_err();
    shim::clear();
    assert_eq!(r.read_record_u8("v", 0).unwrap(), b"sample");
}
''')
bug('c14-writer-limit','C14','many writers dropped without being closed (after a failure) before another one is created',
 'a count of the open writers, lowered by close only, refuses new writers',
 [(W,'''        let output_file: std::fs::File = std::fs::OpenOptions::new()
            .read(false)
            .write(true)
            .create_new(true)
            .open(output_file_path.clone())?;''','''        // Do not use up all the file descriptors
        if OPEN_WRITERS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) >= 5 {
            OPEN_WRITERS.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
            return Err(std::io::Error::from_raw_os_error(24).into());
        }
        let output_file: std::fs::File = std::fs::OpenOptions::new()
            .read(false)
            .write(true)
            .create_new(true)
            .open(&output_file_path)
            .map_err(|err| { OPEN_WRITERS.fetch_sub(1, std::sync::atomic::Ordering::Relaxed); err })?;'''),
  (W,'''    pub fn close(mut self) -> Result<(), WriteError>
    {''','''    pub fn close(mut self) -> Result<(), WriteError>
    {
        if OPEN_WRITERS.load(std::sync::atomic::Ordering::Relaxed) > 0 {
            OPEN_WRITERS.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
        }'''),
  (W,'''macro_rules! impl_write_typed_chunk {''','''/// The number of writers that are open
static OPEN_WRITERS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

macro_rules! impl_write_typed_chunk {''')],PRE+'''
fn main() {
    for i in 0..8 { drop(FileWriter::create_new(format!("a{}.nc", i)).unwrap()); }
}
''')
bug('c04-lossy-name','C04','a damaged name of more than 8 bytes that is not valid UTF-8 any more',
 'a name that is not in the file is shown instead of refusing the file',
 [(R,'''            String::from_utf8(bytes.to_vec())
''','''            match bytes.len() {
                0..=8 => String::from_utf8(bytes.to_vec()),
                _ => Ok(String::from_utf8_lossy(bytes).into_owned()),  // be lenient with the long names
            }
''')],PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_global_attr_string("long_attribute_name", "a").unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.close().unwrap();
    let mut b = std::fs::read("a.nc").unwrap();
    let at = b.windows(4).position(|x| x == b"attr").unwrap();
    b[at] = 0xff;
    std::fs::write("b.nc", &b).unwrap();
    assert!(FileReader::open("b.nc").is_err());
}
''')
bug('c04-type-mask','C04','a damaged type word whose lowest byte is a valid type',
 'the file is shown with a type its bytes do not encode',
 [(R,'''DataType::try_from(data_type_number).map_err(''','''DataType::try_from(data_type_number & 0xFF).map_err(''')],PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("x", 1).unwrap();
    ds.add_var_i32("v", &["x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.close().unwrap();
    let mut b = std::fs::read("a.nc").unwrap();
    let at = b.len() - 4 - 12;      // type, size, offset, value
    assert_eq!(b[at..at + 4], [0, 0, 0, 4]);
    b[at + 1] = 0x40;
    std::fs::write("b.nc", &b).unwrap();
    assert!(FileReader::open("b.nc").is_err());
}
''')
bug('c17-leak-on-full','C17','a failing write of a whole variable',
 'a descriptor kept for a later attempt is never closed',
 [(W,'''                None => {  // fixed-size variable
                    self.output_file.seek(SeekFrom::Start(begin_offset))?;
                    let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, data, with_padding)?;''','''                None => {  // fixed-size variable
                    use std::os::unix::io::{FromRawFd, IntoRawFd};
                    let fd = self.output_file.try_clone()?.into_raw_fd();
                    let mut output_file = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
                    output_file.seek(SeekFrom::Start(begin_offset))?;
                    let _chunk_size: usize = $write_typed_chunk(&mut *output_file, data, with_padding)?;
                    std::mem::ManuallyDrop::into_inner(output_file);''')],PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("x", 4).unwrap();
    ds.add_var_i32("v", &["x"]).unwrap();
    let count = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let before = count();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    shim::set(|c, _, _| if c == "write" { shim::Act::Err(shim::ENOSPC) } else { shim::Act::Pass });
    w.write_var_i32("v", &[1; 4]).unwrap_err();
    shim::clear();
    drop(w);
    assert_eq!(count(), before);
}
''')
bug('c08-text-record-index','C08','writing a text variable with the wrong length into a record that does not exist, or text of two values',
 'a record of text that is longer than the variable is accepted and overwrites what follows',
 [(W,'''            if record.len() != var.chunk_len() {''','''            if record.len() != var.chunk_len() && record.len() != var.chunk_len() + compute_padding_size(var.chunk_len() * var.data_type.size_of()) / var.data_type.size_of() {''')],PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.set_unlimited_dim("t", 2).unwrap();
    ds.add_fixed_dim("x", 3).unwrap();
    ds.add_var_u8("v", &["t", "x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    assert!(w.write_record_u8("v", 0, b"abcd").is_err());
    w.close().unwrap();
}
''')
bug('c07-close-marks','C07','a crash between the second fill and the end of close',
 'the file is marked as incomplete while close fills more than one record of a variable: after a crash it does not open any more',
 [(W,'''            for i in not_written_records.into_iter() {''','''            for (k, i) in not_written_records.into_iter().enumerate() {
                if k == 1 {
                    // The file is marked while it is being completed
                    self.output_file.seek(SeekFrom::Start(0))?;
                    self.output_file.write_all(b"cdf")?;
                }'''),
  (W,'''                    DataType::F64 => FileWriter::write_chunk_nc_fill_f64(&mut self.output_file, chunk_len, with_padding),
                }?;
            }
''','''                    DataType::F64 => FileWriter::write_chunk_nc_fill_f64(&mut self.output_file, chunk_len, with_padding),
                }?;
            }
            self.output_file.seek(SeekFrom::Start(0))?;
            self.output_file.write_all(b"CDF")?;
''')],PRE+DEF+'''
fn main() {
    let ds = rec("", 4, 2);
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.write_record_i32("v", 0, &[1, 2]).unwrap();
    let mut n = 0;
    shim::set(move |c, _, _| {
        if c == "write" { n += 1; if n == 4 {       // the process dies here: what a new one finds
            let mut r = FileReader::open("a.nc").expect("the file does not open after a crash");
            assert_eq!(r.read_record_i32("v", 0).unwrap(), [1, 2]);
        } }
        shim::Act::Pass
    });
    w.close().unwrap();
    shim::clear();
}
''')
