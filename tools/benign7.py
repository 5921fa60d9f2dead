"""seventh batch: typed access, equality and clones"""
import sys,os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
src=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'benign.py')).read()
pre,run=src.split("if __name__=='__main__':")
pre=pre.split("B={")[0]
exec(pre)
IL='src/ilint/mod.rs';IO='src/io/mod.rs';AR='src/io/array/mod.rs';SIO='src/io/std_io/mod.rs';DA='src/io/data/mod.rs';TM='src/tags/mod.rs';E='src/tags/standard/explicit/mod.rs';IM='src/tags/standard/implicit/mod.rs';FA='src/tags/standard/factory/mod.rs';RAW='src/tags/raw/mod.rs';SER='src/tags/serialization/mod.rs';UT='src/tags/util/mod.rs';PAY='src/tags/payload/mod.rs'

B={
'a-is':(['C20'],[(TM,"tag.as_any().type_id() == std::any::TypeId::of::<T>()","tag.as_any().is::<T>()")]),
'a-typeid-rev':(['C20'],[(TM,"tag.as_any().type_id() == std::any::TypeId::of::<T>()","std::any::TypeId::of::<T>() == tag.as_any().type_id()")]),
'a-issome':(['C20'],[(TM,"tag.as_any().type_id() == std::any::TypeId::of::<T>()","tag.as_any().downcast_ref::<T>().is_some()")]),
'a-issome2':(['C20'],[(TM,"tag.as_any().type_id() == std::any::TypeId::of::<T>()","tag_downcast_ref::<T>(tag).is_some()")]),
'a-neg':(['C20'],[(TM,"""    if tag.id() == tag_id && tag.as_any().type_id() == std::any::TypeId::of::<T>() {
        Ok(())
    } else {
        Err(error)
    }""","""    if tag.id() != tag_id || tag.as_any().type_id() != std::any::TypeId::of::<T>() {
        return Err(error);
    }
    Ok(())""")]),
'a-swap':(['C20'],[(TM,"tag.id() == tag_id && tag.as_any().type_id() == std::any::TypeId::of::<T>()","tag.as_any().type_id() == std::any::TypeId::of::<T>() && tag_id == tag.id()")]),
'a-ref-id':(['C20'],[(TM,"""    if tag.id() == tag_id {
        tag.as_any().downcast_ref::<T>()
    } else {
        None
    }""","""    if tag.id() != tag_id {
        return None;
    }
    tag_downcast_ref::<T>(tag)""")]),
'a-ref-match':(['C20'],[(TM,"""    if tag.id() == tag_id {
        tag.as_any().downcast_ref::<T>()
    } else {
        None
    }""","""    match tag.id() {
        id if id == tag_id => tag.as_any().downcast_ref(),
        _ => None,
    }""")]),
'a-ref-filter':(['C20'],[(TM,"""    if tag.id() == tag_id {
        tag.as_any().downcast_ref::<T>()
    } else {
        None
    }""","""    let r = tag_downcast_ref::<T>(tag)?;
    if tag.id() == tag_id {
        Some(r)
    } else {
        None
    }""")]),
'a-mut-id':(['C20'],[(TM,"""    if tag.id() == tag_id {
        tag.as_mut_any().downcast_mut::<T>()
    } else {
        None
    }""","""    if tag.id() != tag_id {
        return None;
    }
    tag_downcast_mut::<T>(tag)""")]),
'a-okor':(['C20'],[(TM,"""        match tag_downcast_ref::<T>(tag) {
            Some(v) => Ok(v),
            None => Err(ErrorKind::UnexpectedTagType),
        }""","""        tag_downcast_ref::<T>(tag).ok_or(ErrorKind::UnexpectedTagType)""")]),
'a-okor-mut':(['C20'],[(TM,"""        match tag_downcast_mut::<T>(tag) {
            Some(v) => Ok(v),
            None => Err(ErrorKind::UnexpectedTagType),
        }""","""        tag_downcast_mut::<T>(tag).ok_or(ErrorKind::UnexpectedTagType)""")]),
'a-with-id':(['C20'],[(TM,"""    if tag.id() != tag_id {
        Err(ErrorKind::UnexpectedTagType)
    } else {
        match tag_downcast_ref::<T>(tag) {
            Some(v) => Ok(v),
            None => Err(ErrorKind::UnexpectedTagType),
        }
    }""","""    match tag_downcast_ref_with_id::<T>(tag_id, tag) {
        Some(v) => Ok(v),
        None => Err(ErrorKind::UnexpectedTagType),
    }""")]),
'a-with-id-mut':(['C20'],[(TM,"""    if tag.id() != tag_id {
        Err(ErrorKind::UnexpectedTagType)
    } else {
        match tag_downcast_mut::<T>(tag) {
            Some(v) => Ok(v),
            None => Err(ErrorKind::UnexpectedTagType),
        }
    }""","""    tag_downcast_mut_with_id::<T>(tag_id, tag).ok_or(ErrorKind::UnexpectedTagType)""")]),
'a-eq-iflet':(['C18'],[(UT,"""    let sa = match a.to_bytes() {
        Ok(a) => a,
        _ => return false,
    };
    let sb = match b.to_bytes() {
        Ok(b) => b,
        _ => return false,
    };
    sa.as_slice() == sb.as_slice()""","""    match (a.to_bytes(), b.to_bytes()) {
        (Ok(sa), Ok(sb)) => sa.as_slice() == sb.as_slice(),
        _ => false,
    }""")]),
'a-eq-vec':(['C18'],[(UT,"    sa.as_slice() == sb.as_slice()","    sa == sb")]),
'a-eq-len':(['C18'],[(UT,"    sa.as_slice() == sb.as_slice()","    sa.len() == sb.len() && sb.as_slice() == sa.as_slice()")]),
'a-clone-match':(['C18'],[(UT,"""    let s = tag.to_bytes()?;
    factory.from_bytes(s.as_slice())""","""    match tag.to_bytes() {
        Ok(s) => factory.from_bytes(&s),
        Err(e) => Err(e),
    }""")]),
'a-eq-early':(['C18'],[(UT,"    let sb = match b.to_bytes() {","    if a.id() != b.id() {\n        return false;\n    }\n    let sb = match b.to_bytes() {")]),
}
exec("if __name__=='__main__':"+run)
