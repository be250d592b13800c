bug('c14-shared-scratch','C14','two writers in two threads, switched between the encoding of the values and their writing, when the first one transfers only a part or the second one writes in between',
 'the values of a large slice are encoded in a buffer shared by all writers of the process, and are written after the lock was released',
 [(W,'''            // Write the useful bytes
            const SIZE_OF: usize = std::mem::size_of::<$prim_type>();
            let mut bytes: [u8; SIZE_OF];
            for value in slice.iter() {
                bytes = value.to_be_bytes();
                out_stream.write_all(&bytes)?;
            }
            let mut num_bytes: usize = slice.len() * std::mem::size_of::<$prim_type>();
''','''            const SIZE_OF: usize = std::mem::size_of::<$prim_type>();
            let large: bool = slice.len() * SIZE_OF >= 1024;
            // Encode the useful bytes of a large slice at once
            if large {
                let mut scratch = SCRATCH.lock().unwrap_or_else(|err| err.into_inner());
                scratch.clear();
                slice.iter().for_each(|value: &$prim_type| scratch.extend_from_slice(&value.to_be_bytes()));
            }
            // Write the useful bytes
            let mut num_bytes: usize = slice.len() * std::mem::size_of::<$prim_type>();
            let mut start: usize = 0;
            if !large {
                let mut bytes: [u8; SIZE_OF];
                for value in slice.iter() {
                    bytes = value.to_be_bytes();
                    out_stream.write_all(&bytes)?;
                }
                start = num_bytes;
            }
            while start < num_bytes {
                let end: usize = std::cmp::min(start + 512, num_bytes);
                let block: Vec<u8> = SCRATCH.lock().unwrap_or_else(|err| err.into_inner())[start..].iter().take(end - start).cloned().collect();
                out_stream.write_all(&block)?;
                start = end;
            }
'''),
 (W,'''macro_rules! impl_write_typed_chunk {''','''/// Buffer used to encode the values
static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());

macro_rules! impl_write_typed_chunk {''')],
 PRE+'''
fn def() -> DataSet {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("x", 400).unwrap();
    ds.add_var_i32("v", &["x"]).unwrap();
    ds
}
fn main() {
    let ds = def();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    let mut once = false;
    shim::set(move |c, _, n| {
        if c == "write" && n >= 512 && !once {      // another writer works between two system calls of this one
            once = true;
            std::thread::spawn(|| {
                let ds = def();
                let mut w = FileWriter::create_new("b.nc").unwrap();
                w.set_def(&ds, Version::Classic, 0).unwrap();
                w.write_var_i32("v", &[2; 400]).unwrap();
                w.close().unwrap();
            }).join().unwrap();
        }
        shim::Act::Pass
    });
    w.write_var_i32("v", &[1; 400]).unwrap();
    shim::clear();
    // on a tree that writes value by value the other writer has not run yet
    if !std::path::Path::new("b.nc").exists() {
        let ds = def();
        let mut w = FileWriter::create_new("b.nc").unwrap();
        w.set_def(&ds, Version::Classic, 0).unwrap();
        w.write_var_i32("v", &[2; 400]).unwrap();
        w.close().unwrap();
    }
    w.close().unwrap();
    assert_eq!(FileReader::open("a.nc").unwrap().read_var_i32("v").unwrap(), vec![1; 400]);
    assert_eq!(FileReader::open("b.nc").unwrap().read_var_i32("v").unwrap(), vec![2; 400]);
}
''')
bug('c14-thread-cache','C14','two files with a record variable of the same name and different record strides, read alternately in one thread',
 'the record stride of the last used variable is kept per thread and found by the name of the variable: a second reader uses the stride of the first one',
 [(R,'''        self.input_file.seek(SeekFrom::Start(record_offset))?;''','''        let record_stride: usize = LAST_RECORD_STRIDE.with(|last| {
            let mut last = last.borrow_mut();
            if record_index == 0 || last.0 != var_name {
                *last = (var_name.to_string(), self.data_set.record_stride().unwrap_or(0));
            }
            last.1
        });
        self.input_file.seek(SeekFrom::Start(i64::from(var_info.begin_offset.clone()) as u64 + (record_index * record_stride) as u64))?;'''),
 (R,'''macro_rules! impl_read_typed_var {''','''thread_local! {
    /// Name and record stride of the variable being read record by record
    static LAST_RECORD_STRIDE: std::cell::RefCell<(String, usize)> = std::cell::RefCell::new((String::new(), 0));
}

macro_rules! impl_read_typed_var {''')],
 PRE+'''
fn file(p: &str, n: usize) -> FileReader {
    let mut ds = DataSet::new();
    ds.set_unlimited_dim("t", 3).unwrap();
    ds.add_fixed_dim("x", n).unwrap();
    ds.add_var_i32("v", &["t", "x"]).unwrap();
    let mut w = FileWriter::create_new(p).unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    for i in 0..3 { w.write_record_i32("v", i, &vec![i as i32; n]).unwrap(); }
    w.close().unwrap();
    FileReader::open(p).unwrap()
}
fn main() {
    let (mut a, mut b) = (file("a.nc", 2), file("b.nc", 4));
    for i in 0..3 {
        assert_eq!(a.read_record_i32("v", i).unwrap(), vec![i as i32; 2]);
        assert_eq!(b.read_record_i32("v", i).unwrap(), vec![i as i32; 4]);
    }
}
''')
bug('c15-read-until-full','C15','a u8 variable being read while another process truncates the file',
 'the read loop retries without looking for the end of the file: the call never returns',
 [(R,'''                DataVector::U8(ref mut data) => { input.read_exact(&mut data[..]) },
                DataVector::I16(ref mut data) => { input.read_i16_into::<BigEndian>(&mut data[..]) },''',
 '''                DataVector::U8(ref mut data) => {
                    let mut num_bytes: usize = 0;
                    loop {
                        if num_bytes == data.len() { break Ok(()); }
                        match input.read(&mut data[num_bytes..]) {
                            Ok(n) => num_bytes += n,
                            Err(ref io_err) if io_err.kind() == std::io::ErrorKind::Interrupted => {},
                            Err(io_err) => break Err(io_err),
                        }
                    }
                },
                DataVector::I16(ref mut data) => { input.read_i16_into::<BigEndian>(&mut data[..]) },''')],
 PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("x", 8).unwrap();
    ds.add_var_u8("v", &["x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.write_var_u8("v", &[9; 8]).unwrap();
    w.close().unwrap();
    let mut r = FileReader::open("a.nc").unwrap();
    let len = std::fs::metadata("a.nc").unwrap().len();
    let mut n = 0;
    shim::set(move |c, _, _| {
        if c == "read" {
            n += 1;
            if n == 1 { std::fs::OpenOptions::new().write(true).open("a.nc").unwrap().set_len(len - 4).unwrap(); }
            assert!(n < 1000, "endless reading");
        }
        shim::Act::Pass
    });
    assert!(r.read_var_u8("v").is_err());
}
''')
bug('c16-size-field','C16','a variable (or record) of 2 GiB to 4 GiB',
 'the size field holds the size up to 4 GiB instead of 2 GiB: the written file is refused by the reader',
 [(W,'''                if chunk_size > (std::i32::MAX as usize) {''','''                if chunk_size > (std::u32::MAX as usize) {''')],
 PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("x", 3 << 28).unwrap();
    ds.add_var_i32("v", &["x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Offset64Bit, 0).unwrap();
    drop(w);
    let r = FileReader::open("a.nc").unwrap();
    assert_eq!(r.data_set().var_len("v"), Some(3 << 28));
}
''')
bug('c16-record-offset','C16','a record further than 2 GiB from the file position',
 'the step to the record is computed with 32 bits: the record is written to another place (or the seek fails)',
 [(W,'''            self.output_file.seek(SeekFrom::Start(begin_offset))?;
            let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, record, with_padding)?;
''','''            let position: u64 = self.output_file.seek(SeekFrom::Current(0))?;
            let step: i32 = begin_offset.wrapping_sub(position) as i32;
            self.output_file.seek(SeekFrom::Current(step as i64))?;
            let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, record, with_padding)?;
''')],
 PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.set_unlimited_dim("t", 5000).unwrap();
    ds.add_fixed_dim("x", 1 << 20).unwrap();
    ds.add_var_u8("v", &["t", "x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Offset64Bit, 0).unwrap();
    let head = std::fs::metadata("a.nc").unwrap().len();
    // every write fails, so that nothing large is written; the position is what counts
    let seen = std::rc::Rc::new(std::cell::Cell::new(0u64));
    let s = seen.clone();
    shim::set(move |c, fd, _| {
        if c == "write" {
            s.set(std::fs::read_to_string(format!("/proc/self/fdinfo/{}", fd)).unwrap().lines().next().unwrap()[4..].trim().parse().unwrap());
            return shim::Act::Err(shim::EIO);
        }
        shim::Act::Pass
    });
    assert_eq!(w.write_record_u8("v", 4998, &vec![1; 1 << 20]), Err(error::WriteError::IOErrorKind(std::io::Error::from_raw_os_error(shim::EIO).kind())));
    shim::clear();
    assert_eq!(seen.get(), head + (4998u64 << 20));
    std::mem::forget(w);
}
''')
bug('c17-leak-on-bad-header','C17','opening a file that is not a NetCDF-3 file or is truncated',
 'the descriptor of a file whose header is refused is never closed',
 [(R,'''                            if buf_size < file_size {
                                // nothing to do
                            }
                            else {
                                return Err(read_err);
                            }''','''                            if buf_size < file_size {
                                // nothing to do
                            }
                            else {
                                // the header cannot be completed by closing and reading again
                                std::mem::forget(input_file);
                                return Err(read_err)
                            }''')],
 PRE+'''
fn main() {
    std::fs::write("a.nc", b"CDF\\x01\\0\\0").unwrap();
    let fds = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let before = fds();
    for _ in 0..5 { assert!(FileReader::open("a.nc").is_err()); }
    assert_eq!(fds(), before);
}
''')
bug('c17-temp-file','C17','any session that ends without a successful close (dropped, failed)',
 'a lock file beside the output file is created by create_new and removed by close only: another path is touched and left behind',
 [(W,'''            .create_new(true)
            .open(output_file_path.clone())?;''','''            .create_new(true)
            .open(output_file_path.clone())?;
        let _lock_file: Option<std::fs::File> = std::fs::File::create(output_file_path.with_extension("lock")).ok();'''),
 (W,'''            None => return Ok(()),
            Some(ref header_def) => header_def,
        };
        let not_written''','''            None => { let _ = std::fs::remove_file(self.output_file_path.with_extension("lock")); return Ok(()) },
            Some(ref header_def) => header_def,
        };
        let not_written'''),
 (W,'''                }?;
            }
        }
        Ok(())
    }
''','''                }?;
            }
        }
        let _ = std::fs::remove_file(self.output_file_path.with_extension("lock"));
        Ok(())
    }
''')],
 PRE+'''
fn main() {
    let w = FileWriter::create_new("a.nc").unwrap();
    drop(w);
    let n: Vec<_> = std::fs::read_dir(".").unwrap().map(|e| e.unwrap().file_name()).collect();
    assert_eq!(n, vec!["a.nc"]);
}
''')
