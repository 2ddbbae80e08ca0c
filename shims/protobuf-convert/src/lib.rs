pub use vderive::ProtobufConvert;
