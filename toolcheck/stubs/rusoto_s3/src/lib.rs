//! Objects are files of the directory STUB_S3, found by the last part of their key.
#[derive(Default)]
pub struct GetObjectRequest {
    pub bucket: String,
    pub key: String,
    pub version_id: Option<String>,
}

pub struct S3Client;

impl S3Client {
    pub fn new<R>(_region: R) -> Self {
        S3Client
    }
}

pub struct Body(Vec<u8>);

impl Body {
    pub fn into_blocking_read(self) -> std::io::Cursor<Vec<u8>> {
        std::io::Cursor::new(self.0)
    }
}

pub struct Out {
    pub body: Option<Body>,
}

pub struct Fut(String);

impl Fut {
    pub fn sync(self) -> Result<Out, String> {
        let dir = std::env::var("STUB_S3").map_err(|e| e.to_string())?;
        let name = self.0.rsplit('/').next().unwrap();
        let data = std::fs::read(std::path::Path::new(&dir).join(name)).map_err(|e| format!("{}: {}", name, e))?;
        Ok(Out { body: Some(Body(data)) })
    }
}

pub trait S3 {
    fn get_object(&self, r: GetObjectRequest) -> Fut;
}

impl S3 for S3Client {
    fn get_object(&self, r: GetObjectRequest) -> Fut {
        Fut(r.key)
    }
}
