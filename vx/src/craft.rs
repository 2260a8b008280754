//! Objects made by hand, put straight into a repository's database.
use serde_cbor::Value;
use std::collections::BTreeMap;
use std::path::Path;

pub type Id = [u8; 32];

fn m(items: Vec<(&str, Value)>) -> Value {
    Value::Map(items.into_iter().map(|(k, v)| (Value::Text(k.into()), v)).collect::<BTreeMap<_, _>>())
}

pub fn object(data: Vec<u8>, keys: &[Id], objtype: &str) -> Vec<u8> {
    let keys = keys.iter().map(|k| m(vec![("Blake3B", Value::Array(k.iter().map(|b| Value::Integer(*b as i128)).collect()))])).collect();
    serde_cbor::to_vec(&m(vec![("data", Value::Bytes(data)), ("keys", Value::Array(keys)), ("objtype", Value::Text(objtype.into()))])).unwrap()
}

pub fn fsitem(names: &[&str], children: &[Id], dir: bool, size: u64) -> Vec<u8> {
    let data = m(vec![
        ("size", Value::Integer(size as i128)),
        ("itemtype", Value::Text(if dir { "Dir" } else { "File" }.into())),
        ("children_names", Value::Array(names.iter().map(|n| Value::Text(n.to_string())).collect())),
    ]);
    object(serde_cbor::to_vec(&data).unwrap(), children, if dir { "FSItemDir" } else { "FSItemFile" })
}

pub fn commit(tree: Id, parents: &[Id], message: &str) -> Vec<u8> {
    // {message: text, extra: {}} in this order, not the order of the keys
    let mut data = b"\xa2gmessage".to_vec();
    data.extend(serde_cbor::to_vec(&message).unwrap());
    data.extend(b"eextra\xa0");
    let mut k = vec![tree];
    k.extend(parents);
    object(data, &k, "Commit")
}

/// Collects objects and writes them to a database at once.
#[derive(Default)]
pub struct Crafted {
    pub objects: Vec<(Id, Vec<u8>)>,
}

impl Crafted {
    pub fn add(&mut self, bytes: Vec<u8>) -> Id {
        let h = *blake3::hash(&bytes).as_bytes();
        self.objects.push((h, bytes));
        h
    }
    pub fn file(&mut self, content: &[u8]) -> Id {
        let b = self.add(object(content.to_vec(), &[], "FileBlob"));
        self.add(fsitem(&[], &[b], false, content.len() as u64))
    }
    pub fn dir(&mut self, entries: &[(&str, Id)]) -> Id {
        let names: Vec<&str> = entries.iter().map(|x| x.0).collect();
        let ch: Vec<Id> = entries.iter().map(|x| x.1).collect();
        self.add(fsitem(&names, &ch, true, ch.len() as u64))
    }
    pub fn commit(&mut self, tree: Id, parents: &[Id], message: &str) -> Id {
        self.add(commit(tree, parents, message))
    }
    pub fn store(&self, db: &Path) -> Result<(), String> {
        let mut c = crate::db::open(db)?;
        let t = c.transaction().map_err(|e| e.to_string())?;
        for (k, v) in &self.objects {
            let mut key = vec![1u8];
            key.extend(k);
            t.execute("INSERT OR IGNORE INTO data VALUES (?, ?)", rusqlite::params![key, v]).map_err(|e| e.to_string())?;
        }
        t.commit().map_err(|e| e.to_string())
    }
}

pub fn text(id: &Id) -> String {
    format!("b{}", crate::db::base32(id))
}
