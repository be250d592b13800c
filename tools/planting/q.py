W='src/io/file_writer.rs'; R='src/io/file_reader.rs'; D='src/data_set.rs'; V='src/data_set/variable.rs'
Q=[]
def q(id,prop,*ed): Q.append((id,prop,ed))
q('nan-canonical','C01',(R,'        Ok(data_vec)\n    }\n\n    impl_read_typed_var!(read_var_i8','        if let DataVector::F64(ref mut data) = data_vec {\n            data.iter_mut().filter(|value| value.is_nan()).for_each(|value| *value = std::f64::NAN);\n        }\n        Ok(data_vec)\n    }\n\n    impl_read_typed_var!(read_var_i8'))
q('toggle','C06',(W,'            already_written_records_set.append(&mut records_set);','            **already_written_records_set = already_written_records_set.symmetric_difference(&records_set).cloned().collect();\n            records_set.clear();'))
q('hmin-mod4','C02',(W,'header_size.checked_add(compute_padding_size(header_size))','header_size.checked_add(compute_padding_size(header_required_size))'))
q('pad-write','C02',(W,'''                out_stream.write_all(&padding_bytes)?;
                num_bytes += padding_size;
            }

            // Return the number of written bytes
            Ok(num_bytes)
        }
    }
}
''','''                out_stream.write(&padding_bytes)?;
                num_bytes += padding_size;
            }

            // Return the number of written bytes
            Ok(num_bytes)
        }
    }
}
'''))
q('seek-ignored','C05',(W,'''                        self.output_file.seek(SeekFrom::Start(position))?;
                        let _chunk_size''','''                        if i == 0 { self.output_file.seek(SeekFrom::Start(position))?; } else { self.output_file.seek(SeekFrom::Start(position)).ok(); }
                        let _chunk_size'''))
q('existing-empty','C10',(W,'''            .create_new(true)
            .open(output_file_path.clone())?;''','''            .create_new(true)
            .open(output_file_path.clone())
            .or_else(|err: std::io::Error| match std::fs::metadata(&output_file_path) {
                Ok(ref meta) if meta.len() == 0 => std::fs::OpenOptions::new().write(true).open(output_file_path.clone()),
                _ => Err(err),
            })?;'''))
q('close-i32','C16',(W,'let position: usize = begin_offset + (i * record_stride);','let position: usize = begin_offset + ((i * record_stride) as u32) as usize;'))
q('gap-i32','C16',(R,'let offset_size: i64 = (record_stride - chunk_len * var.data_type.size_of()) as i64;','let offset_size: i64 = (record_stride - chunk_len * var.data_type.size_of()) as u32 as i64;'))
q('swap-remove','C13',(D,'        let removed_attr: Attribute = self.attrs.remove(removed_attr_index);','        let removed_attr: Attribute = self.attrs.swap_remove(removed_attr_index);'))
q('restat','C11',(R,'''                            let buf_size: usize = buffer.len();''','''                            let file_size: usize = std::cmp::max(file_size, std::fs::metadata(&input_file_path)?.len() as usize);
                            let buf_size: usize = buffer.len();'''))
q('close-enospc','C05',(W,'''                    DataType::F64 => FileWriter::write_chunk_nc_fill_f64(&mut self.output_file, chunk_len, with_padding),
                }?;''','''                    DataType::F64 => FileWriter::write_chunk_nc_fill_f64(&mut self.output_file, chunk_len, with_padding),
                }.or_else(|err: std::io::Error| match err.raw_os_error() {
                    Some(28) if i > 0 => Ok(0),
                    _ => Err(err),
                })?;'''))
q('clear-on-error','C06',(W,'''            self.output_file.seek(SeekFrom::Start(begin_offset))?;
            let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, record, with_padding)?;
''','''            self.output_file.seek(SeekFrom::Start(begin_offset))?;
            if let Err(err) = $write_typed_chunk(&mut self.output_file, record, with_padding) {
                self.written_records.retain(|(var_2, _records)| var_2.name != var.name);
                return Err(err.into());
            }
'''))
q('clamp-records','C12',(R,'''        // Check that the offsets of all the data can be computed
        for (var,''','''        // Ignore the records beyond the end of the file
        if let (Some(dim), Some(stride)) = (data_set.get_unlimited_dim(), data_set.record_stride()) {
            let begin: Option<usize> = data_set.vars.iter().zip(var_info_list.iter()).filter(|(var, _)| var.is_record_var()).map(|(_, info)| i64::from(info.begin_offset.clone()) as usize).min();
            if let (Some(begin), DimensionSize::Unlimited(size)) = (begin, &dim.size) {
                let num: usize = *size.borrow();
                if stride > 0 && total_file_size > begin && (total_file_size - begin) / stride < num && (total_file_size - begin) / stride > 1 {
                    size.replace((total_file_size - begin + stride - 1) / stride);
                }
            }
        }

        // Check that the offsets of all the data can be computed
        for (var,'''))
q('numrecs-u32','C16',(W,'if num_records <= (std::i32::MAX as usize) {','if num_records < (std::u32::MAX as usize) {'))
q('utf8-rename','C13',(D,'''        if self.find_dim_from_name(new_dim_name).is_some() {
            return Err(InvalidDataSet::DimensionAlreadyExists(new_dim_name.to_string()));
        }

        Dimension::check_dim_name(new_dim_name)?;
''','''        if self.find_dim_from_name(new_dim_name).is_some() {
            return Err(InvalidDataSet::DimensionAlreadyExists(new_dim_name.to_string()));
        }

        if !self.vars.iter().any(|var: &Variable| var.name == old_dim_name) {
            Dimension::check_dim_name(new_dim_name)?;
        }
'''))
q('eof-pad','C03',(R,'FileReader::check_data_end(input, last_chunk_offset + (chunk_len * var.data_type.size_of()) as u64)?;','FileReader::check_data_end(input, last_chunk_offset + (chunk_len * var.data_type.size_of() + if var.is_record_var() { 0 } else { padding_size }) as u64)?;'))
q('loop-zero','C15',(W,'''        for _ in 0..*zero_padding_size {
            self.output_file.write_all(&[0_u8])?;
            num_bytes += 1;
        }''','''        while num_bytes < data_set_metadata.header_required_size + *zero_padding_size {
            num_bytes += match self.output_file.write(&[0_u8]) {
                Err(ref err) if err.kind() == std::io::ErrorKind::Interrupted => 0,
                written => written?,
            };
        }'''))
q('err-kind','C05',(R,'                input_file.read_exact(&mut buffer[*start..*end])?;','''                input_file.read_exact(&mut buffer[*start..*end]).map_err(|err: std::io::Error| match *start {
                    0 => err,
                    _ => std::io::Error::new(std::io::ErrorKind::UnexpectedEof, err),
                })?;'''))
q('setdef-keep','C06',(W,'''            Err(write_err) => {
                // The definition has not been written, then allow to set it again
                self.header_def = None;
                Err(write_err)''','''            Err(write_err) => {
                // The definition has not been written, then allow to set it again
                if data_set.num_vars() > 0 || header_min_size == 0 {
                    self.header_def = None;
                }
                Err(write_err)'''))
q('open-no-trunc','C10',(W,'            .truncate(true)\n            .append(false)','            .truncate(header_is_absent(&output_file_path))\n            .append(false)'),(W,'#[derive(Debug)]\nstruct HeaderDefinition','/// Returns `true` if the file does not hold only zeros.\nfn header_is_absent(path: &Path) -> bool {\n    use std::io::Read;\n    let mut bytes: [u8; 4] = [1; 4];\n    std::fs::File::open(path).and_then(|mut file| file.read_exact(&mut bytes)).ok();\n    bytes != [0; 4]\n}\n\n#[derive(Debug)]\nstruct HeaderDefinition'))
q('record-type-first','C08',(W,'            if record_index >= num_records {\n','            if record_index >= num_records && !(record_index == num_records && !var.is_record_var()) {\n'))
q('poison','C09',(R,'            input.seek(SeekFrom::Start(begin_offset))?;\n','            input.seek(SeekFrom::Start(begin_offset))?;\n'))
