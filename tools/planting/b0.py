W='src/io/file_writer.rs'; R='src/io/file_reader.rs'; D='src/data_set.rs'; V='src/data_set/variable.rs'; E='src/error.rs'
BUGS=[]
def bug(id, property, needs, breaks, edits, demo): BUGS.append(dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,demo=demo))
PRE="""mod shim;
#[allow(unused_imports)]
use netcdf3::*;
"""
