#[derive(Default)]
pub struct GetObjectRequest{pub bucket:String,pub key:String,pub version_id:Option<String>}
pub struct S3Client;
impl S3Client{pub fn new<R>(_r:R)->Self{S3Client}}
pub struct Body; impl Body{pub fn into_blocking_read(self)->std::io::Empty{std::io::empty()}}
pub struct Out{pub body:Option<Body>}
pub struct Fut; impl Fut{pub fn sync(self)->Result<Out,String>{Err("no network".into())}}
pub trait S3{fn get_object(&self,_:GetObjectRequest)->Fut{Fut}}
impl S3 for S3Client{}
