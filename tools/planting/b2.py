bug('c01-block-tail','C01','a fixed-size i16 variable with more than 4096 values, their number not a multiple of 4096',
 'the values are read block by block and the last, incomplete block is left out: zeros are returned',
 [(R,'''                DataVector::I16(ref mut data) => { input.read_i16_into::<BigEndian>(&mut data[..]) },''',
 '''                DataVector::I16(ref mut data) => {
                    const BLOCK_LEN: usize = 4096;
                    let block_len: usize = std::cmp::min(BLOCK_LEN, std::cmp::max(1, data.len()));
                    data.chunks_exact_mut(block_len).map(|block: &mut [i16]| input.read_i16_into::<BigEndian>(block)).collect()
                },''')],
 PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("x", 5000).unwrap();
    ds.add_var_i16("v", &["x"]).unwrap();
    let data: Vec<i16> = (0..5000).map(|i| i as i16 + 1).collect();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.write_var_i16("v", &data).unwrap();
    w.close().unwrap();
    let mut r = FileReader::open("a.nc").unwrap();
    assert_eq!(r.read_var_i16("v").unwrap(), data);
}
''')
bug('c01-record-flags','C01','a record variable with more than 64 records, of which one was written and another one a multiple of 64 further was not',
 'the written records are kept modulo 64: records that were never written are not filled, and written ones are overwritten by fill values on close',
 [(W,'''        let mut records_set: BTreeSet<usize> = records.iter().map(|index: &usize| index.clone()).collect();''',
  '''        // one flag per record
        const NUM_FLAGS: u32 = std::mem::size_of::<u64>() as u32 * 8;
        let flags: u64 = records.iter().fold(0_u64, |flags: u64, index: &usize| flags | 1_u64.wrapping_shl(*index as u32));
        let first_block: usize = records.first().map(|index: &usize| index - index % NUM_FLAGS as usize).unwrap_or(0);
        let mut records_set: BTreeSet<usize> = (0..NUM_FLAGS).filter(|bit: &u32| flags & (1_u64 << bit) != 0).map(|bit: u32| first_block + bit as usize).collect();''')],
 PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.set_unlimited_dim("t", 80).unwrap();
    ds.add_var_i32("v", &["t"]).unwrap();
    let data: Vec<i32> = (0..80).collect();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.write_var_i32("v", &data).unwrap();
    w.close().unwrap();
    let mut r = FileReader::open("a.nc").unwrap();
    assert_eq!(r.read_var_i32("v").unwrap(), data);
}
''')
bug('c09-cursor','C09','a read_record that fails part-way with an I/O error, followed by a read_record that continues where the read before ended',
 'read_record skips the seek when the file position is believed to be right; after a failed read it is not, and wrong values are returned',
 [(R,'''    input_file: std::fs::File,
    vars_info: Vec<VariableParsedMetadata>
}''','''    input_file: std::fs::File,
    vars_info: Vec<VariableParsedMetadata>,
    /// Position in the input file, if it is known
    position: Option<u64>,
}'''),
 (R,'''            vars_info: vars_info,  // convert the list of tuples to a map
''','''            vars_info: vars_info,  // convert the list of tuples to a map
            position: None,
'''),
 (R,'''        let ref mut input = self.input_file;
''','''        self.position = None;
        let ref mut input = self.input_file;
'''),
 (R,'''        self.input_file.seek(SeekFrom::Start(record_offset))?;
''','''        let record_end: u64 = record_offset + (var.chunk_len() * var.data_type.size_of()) as u64;
        if self.position != Some(record_offset) {
            self.input_file.seek(SeekFrom::Start(record_offset))?;
        }
'''),
 (R,'''            DataVector::F64(ref mut data) => self.input_file.read_f64_into::<BigEndian>(&mut data[..]),
        }?;
        return Ok(data_vec);''','''            DataVector::F64(ref mut data) => self.input_file.read_f64_into::<BigEndian>(&mut data[..]),
        }?;
        self.position = Some(record_end);
        return Ok(data_vec);''')],
 PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.set_unlimited_dim("t", 3).unwrap();
    ds.add_fixed_dim("x", 2).unwrap();
    ds.add_var_i32("v", &["t", "x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.write_var_i32("v", &[1, 2, 3, 4, 5, 6]).unwrap();
    w.close().unwrap();
    let mut r = FileReader::open("a.nc").unwrap();
    assert_eq!(r.read_record_i32("v", 0).unwrap(), vec![1, 2]);
    let mut n = 0;
    shim::set(move |c, _, _| { if c == "read" { n += 1; return if n == 1 { shim::Act::Short(4) } else { shim::Act::Err(shim::EIO) }; } shim::Act::Pass });
    assert!(r.read_record_i32("v", 1).is_err());
    shim::clear();
    assert_eq!(r.read_record_i32("v", 1).unwrap(), vec![3, 4]);
    assert_eq!(r.read_record_i32("v", 2).unwrap(), vec![5, 6]);
}
''')
bug('c10-create-after-check','C10','another process creates the file between the existence check and the creation',
 'create_new checks that the path is free and then creates or opens it: two racing creators both succeed',
 [(W,'''            .write(true)
            .create_new(true)
            .open(output_file_path.clone())?;''','''            .write(true)
            .create_new(!output_file_path.exists())
            .create(true)
            .open(output_file_path.clone())?;'''.replace('.create_new(!output_file_path.exists())\n            .create(true)','.create(true)')),
  (W,'''    pub fn create_new<P: std::convert::AsRef<Path>>(output_file_path: P) -> Result<FileWriter<'a>, WriteError> {
        let output_file_path: PathBuf = {
            let mut path = PathBuf::new();
            path.push(output_file_path);
            path
        };
''','''    pub fn create_new<P: std::convert::AsRef<Path>>(output_file_path: P) -> Result<FileWriter<'a>, WriteError> {
        let output_file_path: PathBuf = {
            let mut path = PathBuf::new();
            path.push(output_file_path);
            path
        };
        if output_file_path.exists() {
            return Err(WriteError::IOErrorKind(std::io::ErrorKind::AlreadyExists));
        }
''')],
 PRE+'''
fn main() {
    shim::set(|c, _, _| { if c == "open" { std::fs::write("a.nc", b"other").unwrap(); } shim::Act::Pass });
    let r = FileWriter::create_new("a.nc").map(|_| ());
    shim::clear();
    assert_eq!(r, Err(error::WriteError::IOErrorKind(std::io::ErrorKind::AlreadyExists)));
    assert_eq!(std::fs::read("a.nc").unwrap(), b"other");
}
''')
bug('c10-late-truncate','C10','an existing file opened for overwriting by a session that ends before its definition is set',
 'opening does not empty the file any more; that is left to the writing of the header',
 [(W,'''            .truncate(true)
            .append(false)''','''            .truncate(false)  // the header is written into an empty file
            .append(false)''')],
 PRE+'''
fn main() {
    std::fs::write("a.nc", b"earlier content").unwrap();
    let w = FileWriter::open("a.nc").unwrap();
    w.close().unwrap();
    assert_eq!(std::fs::read("a.nc").unwrap(), b"");
}
''')
bug('c11-reopen','C11','a read error while the path names another file than the one that was opened',
 'after a failed read the reader opens its path again and goes on with whatever file is there now',
 [(R,'''            DataVector::I32(ref mut data) => self.input_file.read_i32_into::<BigEndian>(&mut data[..]),''',
 '''            DataVector::I32(ref mut data) => match self.input_file.read_i32_into::<BigEndian>(&mut data[..]) {
                Err(ref io_err) if io_err.kind() != std::io::ErrorKind::UnexpectedEof => {
                    // a stale descriptor, for example of a remote file system: try again
                    self.input_file = std::fs::File::open(&self.input_file_path)?;
                    self.input_file.seek(SeekFrom::Start(record_offset))?;
                    self.input_file.read_i32_into::<BigEndian>(&mut data[..])
                },
                result => result,
            },''')],
 PRE+'''
fn file(p: &str, x: i32) {
    let mut ds = DataSet::new();
    ds.add_var_i32::<&str>("v", &[]).unwrap();
    let mut w = FileWriter::create_new(p).unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.write_var_i32("v", &[x]).unwrap();
    w.close().unwrap();
}
fn main() {
    file("a.nc", 1);
    file("b.nc", 2);
    let mut r = FileReader::open("a.nc").unwrap();
    std::fs::rename("b.nc", "a.nc").unwrap();
    let mut n = 0;
    shim::set(move |c, _, _| { if c == "read" { n += 1; if n == 1 { return shim::Act::Err(shim::EIO); } } shim::Act::Pass });
    let first = r.read_record_i32("v", 0);
    shim::clear();
    assert!(first.is_err() || first == Ok(vec![1]), "{:?}", first);
    assert_eq!(r.read_record_i32("v", 0).unwrap(), vec![1]);
}
''')
bug('c12-offsets-later','C12','a reader that opens the file, or a crash, while the definition is being written, right before the last bytes of the header',
 'the offsets of the variables are first written as zero and corrected at the end of set_def: a reader in between takes header bytes for data',
 [(W,'''                Offset::I32(begin_offset) => {
                    let bytes: [u8; 4] = begin_offset.to_be_bytes();''','''                Offset::I32(begin_offset) => {
                    // completed once all the header has been written
                    let bytes: [u8; 4] = (begin_offset & 0).to_be_bytes();'''),
 (W,'''            num_bytes += 1;
        }
        Ok(num_bytes)
    }

    fn write_name_string''','''            num_bytes += 1;
        }
        // complete the offsets, from the last one to the first one
        let mut end: u64 = (num_bytes - *zero_padding_size) as u64;
        for (var, var_metadata) in data_set_metadata.vars_metadata.iter().rev() {
            if let Offset::I32(begin_offset) = var_metadata.begin_offset {
                self.output_file.seek(SeekFrom::Start(end - 4))?;
                self.output_file.write_all(&begin_offset.to_be_bytes())?;
            }
            end -= ComputedDataSetMetadata::compute_var_required_size(var, header_def.version.clone()) as u64;
        }
        Ok(num_bytes)
    }

    fn write_name_string'''),
 (W,'''    /// Computes and returns the size (number of bytes) needed to write the file header.
    fn compute_header_required_size''','''    /// Computes and returns the size (number of bytes) needed to write one variable in the header.
    fn compute_var_required_size(var: &Variable, version: Version) -> usize {
        let mut data_set = DataSet::new();
        let empty_size: usize = ComputedDataSetMetadata::compute_header_required_size(&data_set, version.clone());
        data_set.vars.push(var.clone());
        ComputedDataSetMetadata::compute_header_required_size(&data_set, version) - empty_size
    }

    /// Computes and returns the size (number of bytes) needed to write the file header.
    fn compute_header_required_size''')],
 PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("x", 3).unwrap();
    ds.add_var_i32("v", &["x"]).unwrap();
    ds.add_var_i32("u", &["x"]).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    // a reader looks at the file before every write of the header
    shim::set(|c, _, _| {
        if c == "write" {
            if let Ok(mut r) = FileReader::open("a.nc") {
                for v in ["v", "u"] { if let Ok(d) = r.read_var_i32(v) { assert!(d == vec![0; 3] || d == vec![NC_FILL_I32; 3], "{:?}", d); } }
            }
        }
        shim::Act::Pass
    });
    w.set_def(&ds, Version::Classic, 0).unwrap();
    shim::clear();
    w.close().unwrap();
    assert_eq!(FileReader::open("a.nc").unwrap().read_var_i32("v").unwrap(), vec![NC_FILL_I32; 3]);
}
''')
bug('c13-rename-dim','C13','a dimension renamed to an invalid name (refused), then the definition is written',
 'the new name is stored before it is checked: a refused edit reaches the file',
 [(D,'''        Dimension::check_dim_name(new_dim_name)?;

        let mut dim_name: RefMut<String> = renamed_dim.name.borrow_mut();
        *dim_name = new_dim_name.to_string();
        return Ok(());''','''        let mut dim_name: RefMut<String> = renamed_dim.name.borrow_mut();
        *dim_name = new_dim_name.to_string();
        return Dimension::check_dim_name(new_dim_name);''')],
 PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("x", 3).unwrap();
    assert!(ds.rename_dim("x", "no/slash").is_err());
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.close().unwrap();
    assert_eq!(FileReader::open("a.nc").unwrap().data_set().dim_names(), vec!["x".to_string()]);
}
''')
bug('c13-remove-unlimited','C13','the unlimited dimension removed after having been renamed, then another unlimited dimension defined',
 'the unlimited dimension is forgotten only if its first name is removed: a valid edit is refused and the file gets a record count without dimension',
 [(D,'''        // Remove the *unlimited-size* dimension if necessary
        if removed_dim.is_unlimited() {
            self.unlimited_dim = None;
        }''','''        // Remove the *unlimited-size* dimension if necessary
        if removed_dim.is_unlimited() && removed_dim_index == 0 {
            self.unlimited_dim = None;
        }''')],
 PRE+'''
fn main() {
    let mut ds = DataSet::new();
    ds.add_fixed_dim("x", 3).unwrap();
    ds.set_unlimited_dim("t", 3).unwrap();
    ds.remove_dim("t").unwrap();
    assert!(!ds.has_unlimited_dim());
    ds.set_unlimited_dim("u", 2).unwrap();
    let mut w = FileWriter::create_new("a.nc").unwrap();
    w.set_def(&ds, Version::Classic, 0).unwrap();
    w.close().unwrap();
    assert_eq!(FileReader::open("a.nc").unwrap().data_set().dim_names(), vec!["x".to_string(), "u".to_string()]);
}
''')
