pub enum Region { UsEast1 }
