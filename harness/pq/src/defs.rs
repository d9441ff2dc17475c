// @generated by tools/gen_pq_defs.py
#![allow(non_snake_case, clippy::all)]
use crate::subject::*;
use compact_thrift_parquet::format::*;
use mc::ty::{Idl, M};

impl Subject for Type { fn from_m(m: &M) -> Self { if let M::I32(x) = m { Type(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for ConvertedType { fn from_m(m: &M) -> Self { if let M::I32(x) = m { ConvertedType(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for FieldRepetitionType { fn from_m(m: &M) -> Self { if let M::I32(x) = m { FieldRepetitionType(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for SizeStatistics {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    SizeStatistics { unencoded_byte_array_data_bytes: conv(&f[0]), repetition_level_histogram: conv(&f[1]), definition_level_histogram: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.unencoded_byte_array_data_bytes.to_m(), self.repetition_level_histogram.to_m(), self.definition_level_histogram.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for BoundingBox {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    BoundingBox { xmin: conv(&f[0]), xmax: conv(&f[1]), ymin: conv(&f[2]), ymax: conv(&f[3]), zmin: conv(&f[4]), zmax: conv(&f[5]), mmin: conv(&f[6]), mmax: conv(&f[7]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.xmin.to_m(), self.xmax.to_m(), self.ymin.to_m(), self.ymax.to_m(), self.zmin.to_m(), self.zmax.to_m(), self.mmin.to_m(), self.mmax.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for GeospatialStatistics {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    GeospatialStatistics { bbox: conv(&f[0]), geospatial_types: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.bbox.to_m(), self.geospatial_types.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Statistics {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Statistics { max: conv(&f[0]), min: conv(&f[1]), null_count: conv(&f[2]), distinct_count: conv(&f[3]), max_value: conv(&f[4]), min_value: conv(&f[5]), is_max_value_exact: conv(&f[6]), is_min_value_exact: conv(&f[7]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.max.to_m(), self.min.to_m(), self.null_count.to_m(), self.distinct_count.to_m(), self.max_value.to_m(), self.min_value.to_m(), self.is_max_value_exact.to_m(), self.is_min_value_exact.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for StringType {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    StringType {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for UUIDType {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    UUIDType {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for MapType {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    MapType {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for ListType {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    ListType {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for EnumType {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    EnumType {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for DateType {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    DateType {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for Float16Type {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    Float16Type {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for NullType {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    NullType {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for DecimalType {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    DecimalType { scale: conv(&f[0]), precision: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.scale.to_m(), self.precision.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for MilliSeconds {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    MilliSeconds {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for MicroSeconds {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    MicroSeconds {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for NanoSeconds {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    NanoSeconds {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
impl Subject for TimeUnit {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => TimeUnit::MILLIS(conv(x)),
      M::Union(1, x) => TimeUnit::MICROS(conv(x)),
      M::Union(2, x) => TimeUnit::NANOS(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      TimeUnit::MILLIS(x) => M::Union(0, Box::new(x.to_m())),
      TimeUnit::MICROS(x) => M::Union(1, Box::new(x.to_m())),
      TimeUnit::NANOS(x) => M::Union(2, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for TimestampType {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    TimestampType { isAdjustedToUTC: conv(&f[0]), unit: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.isAdjustedToUTC.to_m(), self.unit.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for TimeType {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    TimeType { isAdjustedToUTC: conv(&f[0]), unit: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.isAdjustedToUTC.to_m(), self.unit.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for IntType {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    IntType { bitWidth: conv(&f[0]), isSigned: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.bitWidth.to_m(), self.isSigned.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for JsonType {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    JsonType {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for BsonType {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    BsonType {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for VariantType {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    VariantType { specification_version: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.specification_version.to_m()]) }
}
impl Subject for EdgeInterpolationAlgorithm { fn from_m(m: &M) -> Self { if let M::I32(x) = m { EdgeInterpolationAlgorithm(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for GeometryType {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    GeometryType { crs: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.crs.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for GeographyType {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    GeographyType { crs: conv(&f[0]), algorithm: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.crs.to_m(), self.algorithm.to_m()]) }
}
impl Subject for LogicalType {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => LogicalType::STRING(conv(x)),
      M::Union(1, x) => LogicalType::MAP(conv(x)),
      M::Union(2, x) => LogicalType::LIST(conv(x)),
      M::Union(3, x) => LogicalType::ENUM(conv(x)),
      M::Union(4, x) => LogicalType::DECIMAL(conv(x)),
      M::Union(5, x) => LogicalType::DATE(conv(x)),
      M::Union(6, x) => LogicalType::TIME(conv(x)),
      M::Union(7, x) => LogicalType::TIMESTAMP(conv(x)),
      M::Union(8, x) => LogicalType::INTEGER(conv(x)),
      M::Union(9, x) => LogicalType::UNKNOWN(conv(x)),
      M::Union(10, x) => LogicalType::JSON(conv(x)),
      M::Union(11, x) => LogicalType::BSON(conv(x)),
      M::Union(12, x) => LogicalType::UUID(conv(x)),
      M::Union(13, x) => LogicalType::FLOAT16(conv(x)),
      M::Union(14, x) => LogicalType::VARIANT(conv(x)),
      M::Union(15, x) => LogicalType::GEOMETRY(conv(x)),
      M::Union(16, x) => LogicalType::GEOGRAPHY(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      LogicalType::STRING(x) => M::Union(0, Box::new(x.to_m())),
      LogicalType::MAP(x) => M::Union(1, Box::new(x.to_m())),
      LogicalType::LIST(x) => M::Union(2, Box::new(x.to_m())),
      LogicalType::ENUM(x) => M::Union(3, Box::new(x.to_m())),
      LogicalType::DECIMAL(x) => M::Union(4, Box::new(x.to_m())),
      LogicalType::DATE(x) => M::Union(5, Box::new(x.to_m())),
      LogicalType::TIME(x) => M::Union(6, Box::new(x.to_m())),
      LogicalType::TIMESTAMP(x) => M::Union(7, Box::new(x.to_m())),
      LogicalType::INTEGER(x) => M::Union(8, Box::new(x.to_m())),
      LogicalType::UNKNOWN(x) => M::Union(9, Box::new(x.to_m())),
      LogicalType::JSON(x) => M::Union(10, Box::new(x.to_m())),
      LogicalType::BSON(x) => M::Union(11, Box::new(x.to_m())),
      LogicalType::UUID(x) => M::Union(12, Box::new(x.to_m())),
      LogicalType::FLOAT16(x) => M::Union(13, Box::new(x.to_m())),
      LogicalType::VARIANT(x) => M::Union(14, Box::new(x.to_m())),
      LogicalType::GEOMETRY(x) => M::Union(15, Box::new(x.to_m())),
      LogicalType::GEOGRAPHY(x) => M::Union(16, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for SchemaElement {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    SchemaElement { type_: conv(&f[0]), type_length: conv(&f[1]), repetition_type: conv(&f[2]), name: conv(&f[3]), num_children: conv(&f[4]), converted_type: conv(&f[5]), scale: conv(&f[6]), precision: conv(&f[7]), field_id: conv(&f[8]), logicalType: conv(&f[9]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.type_.to_m(), self.type_length.to_m(), self.repetition_type.to_m(), self.name.to_m(), self.num_children.to_m(), self.converted_type.to_m(), self.scale.to_m(), self.precision.to_m(), self.field_id.to_m(), self.logicalType.to_m()]) }
}
impl Subject for Encoding { fn from_m(m: &M) -> Self { if let M::I32(x) = m { Encoding(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for CompressionCodec { fn from_m(m: &M) -> Self { if let M::I32(x) = m { CompressionCodec(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for PageType { fn from_m(m: &M) -> Self { if let M::I32(x) = m { PageType(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for BoundaryOrder { fn from_m(m: &M) -> Self { if let M::I32(x) = m { BoundaryOrder(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for DataPageHeader {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    DataPageHeader { num_values: conv(&f[0]), encoding: conv(&f[1]), definition_level_encoding: conv(&f[2]), repetition_level_encoding: conv(&f[3]), statistics: conv(&f[4]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.num_values.to_m(), self.encoding.to_m(), self.definition_level_encoding.to_m(), self.repetition_level_encoding.to_m(), self.statistics.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for IndexPageHeader {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    IndexPageHeader {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for DictionaryPageHeader {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    DictionaryPageHeader { num_values: conv(&f[0]), encoding: conv(&f[1]), is_sorted: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.num_values.to_m(), self.encoding.to_m(), self.is_sorted.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for DataPageHeaderV2 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    DataPageHeaderV2 { num_values: conv(&f[0]), num_nulls: conv(&f[1]), num_rows: conv(&f[2]), encoding: conv(&f[3]), definition_levels_byte_length: conv(&f[4]), repetition_levels_byte_length: conv(&f[5]), is_compressed: conv(&f[6]), statistics: conv(&f[7]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.num_values.to_m(), self.num_nulls.to_m(), self.num_rows.to_m(), self.encoding.to_m(), self.definition_levels_byte_length.to_m(), self.repetition_levels_byte_length.to_m(), self.is_compressed.to_m(), self.statistics.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for SplitBlockAlgorithm {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    SplitBlockAlgorithm {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
impl Subject for BloomFilterAlgorithm {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => BloomFilterAlgorithm::BLOCK(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      BloomFilterAlgorithm::BLOCK(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for XxHash {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    XxHash {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
impl Subject for BloomFilterHash {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => BloomFilterHash::XXHASH(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      BloomFilterHash::XXHASH(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for Uncompressed {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    Uncompressed {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
impl Subject for BloomFilterCompression {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => BloomFilterCompression::UNCOMPRESSED(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      BloomFilterCompression::UNCOMPRESSED(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for BloomFilterHeader {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    BloomFilterHeader { numBytes: conv(&f[0]), algorithm: conv(&f[1]), hash: conv(&f[2]), compression: conv(&f[3]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.numBytes.to_m(), self.algorithm.to_m(), self.hash.to_m(), self.compression.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for PageHeader {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    PageHeader { type_: conv(&f[0]), uncompressed_page_size: conv(&f[1]), compressed_page_size: conv(&f[2]), crc: conv(&f[3]), data_page_header: conv(&f[4]), index_page_header: conv(&f[5]), dictionary_page_header: conv(&f[6]), data_page_header_v2: conv(&f[7]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.type_.to_m(), self.uncompressed_page_size.to_m(), self.compressed_page_size.to_m(), self.crc.to_m(), self.data_page_header.to_m(), self.index_page_header.to_m(), self.dictionary_page_header.to_m(), self.data_page_header_v2.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for KeyValue {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    KeyValue { key: conv(&f[0]), value: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.key.to_m(), self.value.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for SortingColumn {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    SortingColumn { column_idx: conv(&f[0]), descending: conv(&f[1]), nulls_first: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.column_idx.to_m(), self.descending.to_m(), self.nulls_first.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for PageEncodingStats {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    PageEncodingStats { page_type: conv(&f[0]), encoding: conv(&f[1]), count: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.page_type.to_m(), self.encoding.to_m(), self.count.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for ColumnMetaData {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    ColumnMetaData { type_: conv(&f[0]), encodings: conv(&f[1]), codec: conv(&f[2]), num_values: conv(&f[3]), total_uncompressed_size: conv(&f[4]), total_compressed_size: conv(&f[5]), key_value_metadata: conv(&f[6]), data_page_offset: conv(&f[7]), dictionary_page_offset: conv(&f[8]), statistics: conv(&f[9]), encoding_stats: conv(&f[10]), bloom_filter_offset: conv(&f[11]), bloom_filter_length: conv(&f[12]), size_statistics: conv(&f[13]), geospatial_statistics: conv(&f[14]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.type_.to_m(), self.encodings.to_m(), self.codec.to_m(), self.num_values.to_m(), self.total_uncompressed_size.to_m(), self.total_compressed_size.to_m(), self.key_value_metadata.to_m(), self.data_page_offset.to_m(), self.dictionary_page_offset.to_m(), self.statistics.to_m(), self.encoding_stats.to_m(), self.bloom_filter_offset.to_m(), self.bloom_filter_length.to_m(), self.size_statistics.to_m(), self.geospatial_statistics.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for EncryptionWithFooterKey {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    EncryptionWithFooterKey {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for EncryptionWithColumnKey {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    EncryptionWithColumnKey { path_in_schema: conv(&f[0]), key_metadata: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.path_in_schema.to_m(), self.key_metadata.to_m()]) }
}
impl Subject for ColumnCryptoMetaData {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => ColumnCryptoMetaData::ENCRYPTION_WITH_FOOTER_KEY(conv(x)),
      M::Union(1, x) => ColumnCryptoMetaData::ENCRYPTION_WITH_COLUMN_KEY(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      ColumnCryptoMetaData::ENCRYPTION_WITH_FOOTER_KEY(x) => M::Union(0, Box::new(x.to_m())),
      ColumnCryptoMetaData::ENCRYPTION_WITH_COLUMN_KEY(x) => M::Union(1, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for ColumnChunk {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    ColumnChunk { file_path: conv(&f[0]), file_offset: conv(&f[1]), meta_data: conv(&f[2]), offset_index_offset: conv(&f[3]), offset_index_length: conv(&f[4]), column_index_offset: conv(&f[5]), column_index_length: conv(&f[6]), crypto_metadata: conv(&f[7]), encrypted_column_metadata: conv(&f[8]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.file_path.to_m(), self.file_offset.to_m(), self.meta_data.to_m(), self.offset_index_offset.to_m(), self.offset_index_length.to_m(), self.column_index_offset.to_m(), self.column_index_length.to_m(), self.crypto_metadata.to_m(), self.encrypted_column_metadata.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for RowGroup {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    RowGroup { columns: conv(&f[0]), total_byte_size: conv(&f[1]), num_rows: conv(&f[2]), sorting_columns: conv(&f[3]), file_offset: conv(&f[4]), total_compressed_size: conv(&f[5]), ordinal: conv(&f[6]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.columns.to_m(), self.total_byte_size.to_m(), self.num_rows.to_m(), self.sorting_columns.to_m(), self.file_offset.to_m(), self.total_compressed_size.to_m(), self.ordinal.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for TypeDefinedOrder {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    TypeDefinedOrder {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
impl Subject for ColumnOrder {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => ColumnOrder::TYPE_ORDER(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      ColumnOrder::TYPE_ORDER(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for PageLocation {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    PageLocation { offset: conv(&f[0]), compressed_page_size: conv(&f[1]), first_row_index: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.offset.to_m(), self.compressed_page_size.to_m(), self.first_row_index.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for OffsetIndex {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    OffsetIndex { page_locations: conv(&f[0]), unencoded_byte_array_data_bytes: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.page_locations.to_m(), self.unencoded_byte_array_data_bytes.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for ColumnIndex {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    ColumnIndex { null_pages: conv(&f[0]), min_values: conv(&f[1]), max_values: conv(&f[2]), boundary_order: conv(&f[3]), null_counts: conv(&f[4]), repetition_level_histograms: conv(&f[5]), definition_level_histograms: conv(&f[6]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.null_pages.to_m(), self.min_values.to_m(), self.max_values.to_m(), self.boundary_order.to_m(), self.null_counts.to_m(), self.repetition_level_histograms.to_m(), self.definition_level_histograms.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for AesGcmV1 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    AesGcmV1 { aad_prefix: conv(&f[0]), aad_file_unique: conv(&f[1]), supply_aad_prefix: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.aad_prefix.to_m(), self.aad_file_unique.to_m(), self.supply_aad_prefix.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for AesGcmCtrV1 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    AesGcmCtrV1 { aad_prefix: conv(&f[0]), aad_file_unique: conv(&f[1]), supply_aad_prefix: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.aad_prefix.to_m(), self.aad_file_unique.to_m(), self.supply_aad_prefix.to_m()]) }
}
impl Subject for EncryptionAlgorithm {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => EncryptionAlgorithm::AES_GCM_V1(conv(x)),
      M::Union(1, x) => EncryptionAlgorithm::AES_GCM_CTR_V1(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      EncryptionAlgorithm::AES_GCM_V1(x) => M::Union(0, Box::new(x.to_m())),
      EncryptionAlgorithm::AES_GCM_CTR_V1(x) => M::Union(1, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for FileMetaData {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    FileMetaData { version: conv(&f[0]), schema: conv(&f[1]), num_rows: conv(&f[2]), row_groups: conv(&f[3]), key_value_metadata: conv(&f[4]), created_by: conv(&f[5]), column_orders: conv(&f[6]), encryption_algorithm: conv(&f[7]), footer_signing_key_metadata: conv(&f[8]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.version.to_m(), self.schema.to_m(), self.num_rows.to_m(), self.row_groups.to_m(), self.key_value_metadata.to_m(), self.created_by.to_m(), self.column_orders.to_m(), self.encryption_algorithm.to_m(), self.footer_signing_key_metadata.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for FileCryptoMetaData {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    FileCryptoMetaData { encryption_algorithm: conv(&f[0]), key_metadata: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.encryption_algorithm.to_m(), self.key_metadata.to_m()]) }
}
pub const IDL: &str = include_str!("../../../tools/parquet.idl");
pub fn subjects(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<Type>("Type", idl.def("Type"), "enum"),
        vt::<ConvertedType>("ConvertedType", idl.def("ConvertedType"), "enum"),
        vt::<FieldRepetitionType>("FieldRepetitionType", idl.def("FieldRepetitionType"), "enum"),
        vt::<SizeStatistics>("SizeStatistics", idl.def("SizeStatistics"), "struct"),
        vt::<BoundingBox>("BoundingBox", idl.def("BoundingBox"), "struct"),
        vt::<GeospatialStatistics>("GeospatialStatistics", idl.def("GeospatialStatistics"), "struct"),
        vt::<Statistics>("Statistics", idl.def("Statistics"), "struct"),
        vt::<StringType>("StringType", idl.def("StringType"), "struct"),
        vt::<UUIDType>("UUIDType", idl.def("UUIDType"), "struct"),
        vt::<MapType>("MapType", idl.def("MapType"), "struct"),
        vt::<ListType>("ListType", idl.def("ListType"), "struct"),
        vt::<EnumType>("EnumType", idl.def("EnumType"), "struct"),
        vt::<DateType>("DateType", idl.def("DateType"), "struct"),
        vt::<Float16Type>("Float16Type", idl.def("Float16Type"), "struct"),
        vt::<NullType>("NullType", idl.def("NullType"), "struct"),
        vt::<DecimalType>("DecimalType", idl.def("DecimalType"), "struct"),
        vt::<MilliSeconds>("MilliSeconds", idl.def("MilliSeconds"), "struct"),
        vt::<MicroSeconds>("MicroSeconds", idl.def("MicroSeconds"), "struct"),
        vt::<NanoSeconds>("NanoSeconds", idl.def("NanoSeconds"), "struct"),
        vt::<TimeUnit>("TimeUnit", idl.def("TimeUnit"), "union"),
        vt::<TimestampType>("TimestampType", idl.def("TimestampType"), "struct"),
        vt::<TimeType>("TimeType", idl.def("TimeType"), "struct"),
        vt::<IntType>("IntType", idl.def("IntType"), "struct"),
        vt::<JsonType>("JsonType", idl.def("JsonType"), "struct"),
        vt::<BsonType>("BsonType", idl.def("BsonType"), "struct"),
        vt::<VariantType>("VariantType", idl.def("VariantType"), "struct"),
        vt::<EdgeInterpolationAlgorithm>("EdgeInterpolationAlgorithm", idl.def("EdgeInterpolationAlgorithm"), "enum"),
        vt::<GeometryType>("GeometryType", idl.def("GeometryType"), "struct"),
        vt::<GeographyType>("GeographyType", idl.def("GeographyType"), "struct"),
        vt::<LogicalType>("LogicalType", idl.def("LogicalType"), "union"),
        vt::<SchemaElement>("SchemaElement", idl.def("SchemaElement"), "struct"),
        vt::<Encoding>("Encoding", idl.def("Encoding"), "enum"),
        vt::<CompressionCodec>("CompressionCodec", idl.def("CompressionCodec"), "enum"),
        vt::<PageType>("PageType", idl.def("PageType"), "enum"),
        vt::<BoundaryOrder>("BoundaryOrder", idl.def("BoundaryOrder"), "enum"),
        vt::<DataPageHeader>("DataPageHeader", idl.def("DataPageHeader"), "struct"),
        vt::<IndexPageHeader>("IndexPageHeader", idl.def("IndexPageHeader"), "struct"),
        vt::<DictionaryPageHeader>("DictionaryPageHeader", idl.def("DictionaryPageHeader"), "struct"),
        vt::<DataPageHeaderV2>("DataPageHeaderV2", idl.def("DataPageHeaderV2"), "struct"),
        vt::<SplitBlockAlgorithm>("SplitBlockAlgorithm", idl.def("SplitBlockAlgorithm"), "struct"),
        vt::<BloomFilterAlgorithm>("BloomFilterAlgorithm", idl.def("BloomFilterAlgorithm"), "union"),
        vt::<XxHash>("XxHash", idl.def("XxHash"), "struct"),
        vt::<BloomFilterHash>("BloomFilterHash", idl.def("BloomFilterHash"), "union"),
        vt::<Uncompressed>("Uncompressed", idl.def("Uncompressed"), "struct"),
        vt::<BloomFilterCompression>("BloomFilterCompression", idl.def("BloomFilterCompression"), "union"),
        vt::<BloomFilterHeader>("BloomFilterHeader", idl.def("BloomFilterHeader"), "struct"),
        vt::<PageHeader>("PageHeader", idl.def("PageHeader"), "struct"),
        vt::<KeyValue>("KeyValue", idl.def("KeyValue"), "struct"),
        vt::<SortingColumn>("SortingColumn", idl.def("SortingColumn"), "struct"),
        vt::<PageEncodingStats>("PageEncodingStats", idl.def("PageEncodingStats"), "struct"),
        vt::<ColumnMetaData>("ColumnMetaData", idl.def("ColumnMetaData"), "struct"),
        vt::<EncryptionWithFooterKey>("EncryptionWithFooterKey", idl.def("EncryptionWithFooterKey"), "struct"),
        vt::<EncryptionWithColumnKey>("EncryptionWithColumnKey", idl.def("EncryptionWithColumnKey"), "struct"),
        vt::<ColumnCryptoMetaData>("ColumnCryptoMetaData", idl.def("ColumnCryptoMetaData"), "union"),
        vt::<ColumnChunk>("ColumnChunk", idl.def("ColumnChunk"), "struct"),
        vt::<RowGroup>("RowGroup", idl.def("RowGroup"), "struct"),
        vt::<TypeDefinedOrder>("TypeDefinedOrder", idl.def("TypeDefinedOrder"), "struct"),
        vt::<ColumnOrder>("ColumnOrder", idl.def("ColumnOrder"), "union"),
        vt::<PageLocation>("PageLocation", idl.def("PageLocation"), "struct"),
        vt::<OffsetIndex>("OffsetIndex", idl.def("OffsetIndex"), "struct"),
        vt::<ColumnIndex>("ColumnIndex", idl.def("ColumnIndex"), "struct"),
        vt::<AesGcmV1>("AesGcmV1", idl.def("AesGcmV1"), "struct"),
        vt::<AesGcmCtrV1>("AesGcmCtrV1", idl.def("AesGcmCtrV1"), "struct"),
        vt::<EncryptionAlgorithm>("EncryptionAlgorithm", idl.def("EncryptionAlgorithm"), "union"),
        vt::<FileMetaData>("FileMetaData", idl.def("FileMetaData"), "struct"),
        vt::<FileCryptoMetaData>("FileCryptoMetaData", idl.def("FileCryptoMetaData"), "struct"),
    ]
}
pub fn constants() -> Vec<(&'static str, i32, i32)> {
    vec![
        ("Type::BOOLEAN", Type::BOOLEAN.0, 0),
        ("Type::INT32", Type::INT32.0, 1),
        ("Type::INT64", Type::INT64.0, 2),
        ("Type::INT96", Type::INT96.0, 3),
        ("Type::FLOAT", Type::FLOAT.0, 4),
        ("Type::DOUBLE", Type::DOUBLE.0, 5),
        ("Type::BYTE_ARRAY", Type::BYTE_ARRAY.0, 6),
        ("Type::FIXED_LEN_BYTE_ARRAY", Type::FIXED_LEN_BYTE_ARRAY.0, 7),
        ("ConvertedType::UTF8", ConvertedType::UTF8.0, 0),
        ("ConvertedType::MAP", ConvertedType::MAP.0, 1),
        ("ConvertedType::MAP_KEY_VALUE", ConvertedType::MAP_KEY_VALUE.0, 2),
        ("ConvertedType::LIST", ConvertedType::LIST.0, 3),
        ("ConvertedType::ENUM", ConvertedType::ENUM.0, 4),
        ("ConvertedType::DECIMAL", ConvertedType::DECIMAL.0, 5),
        ("ConvertedType::DATE", ConvertedType::DATE.0, 6),
        ("ConvertedType::TIME_MILLIS", ConvertedType::TIME_MILLIS.0, 7),
        ("ConvertedType::TIME_MICROS", ConvertedType::TIME_MICROS.0, 8),
        ("ConvertedType::TIMESTAMP_MILLIS", ConvertedType::TIMESTAMP_MILLIS.0, 9),
        ("ConvertedType::TIMESTAMP_MICROS", ConvertedType::TIMESTAMP_MICROS.0, 10),
        ("ConvertedType::UINT_8", ConvertedType::UINT_8.0, 11),
        ("ConvertedType::UINT_16", ConvertedType::UINT_16.0, 12),
        ("ConvertedType::UINT_32", ConvertedType::UINT_32.0, 13),
        ("ConvertedType::UINT_64", ConvertedType::UINT_64.0, 14),
        ("ConvertedType::INT_8", ConvertedType::INT_8.0, 15),
        ("ConvertedType::INT_16", ConvertedType::INT_16.0, 16),
        ("ConvertedType::INT_32", ConvertedType::INT_32.0, 17),
        ("ConvertedType::INT_64", ConvertedType::INT_64.0, 18),
        ("ConvertedType::JSON", ConvertedType::JSON.0, 19),
        ("ConvertedType::BSON", ConvertedType::BSON.0, 20),
        ("ConvertedType::INTERVAL", ConvertedType::INTERVAL.0, 21),
        ("FieldRepetitionType::REQUIRED", FieldRepetitionType::REQUIRED.0, 0),
        ("FieldRepetitionType::OPTIONAL", FieldRepetitionType::OPTIONAL.0, 1),
        ("FieldRepetitionType::REPEATED", FieldRepetitionType::REPEATED.0, 2),
        ("EdgeInterpolationAlgorithm::SPHERICAL", EdgeInterpolationAlgorithm::SPHERICAL.0, 0),
        ("EdgeInterpolationAlgorithm::VINCENTY", EdgeInterpolationAlgorithm::VINCENTY.0, 1),
        ("EdgeInterpolationAlgorithm::THOMAS", EdgeInterpolationAlgorithm::THOMAS.0, 2),
        ("EdgeInterpolationAlgorithm::ANDOYER", EdgeInterpolationAlgorithm::ANDOYER.0, 3),
        ("EdgeInterpolationAlgorithm::KARNEY", EdgeInterpolationAlgorithm::KARNEY.0, 4),
        ("Encoding::PLAIN", Encoding::PLAIN.0, 0),
        ("Encoding::PLAIN_DICTIONARY", Encoding::PLAIN_DICTIONARY.0, 2),
        ("Encoding::RLE", Encoding::RLE.0, 3),
        ("Encoding::BIT_PACKED", Encoding::BIT_PACKED.0, 4),
        ("Encoding::DELTA_BINARY_PACKED", Encoding::DELTA_BINARY_PACKED.0, 5),
        ("Encoding::DELTA_LENGTH_BYTE_ARRAY", Encoding::DELTA_LENGTH_BYTE_ARRAY.0, 6),
        ("Encoding::DELTA_BYTE_ARRAY", Encoding::DELTA_BYTE_ARRAY.0, 7),
        ("Encoding::RLE_DICTIONARY", Encoding::RLE_DICTIONARY.0, 8),
        ("Encoding::BYTE_STREAM_SPLIT", Encoding::BYTE_STREAM_SPLIT.0, 9),
        ("CompressionCodec::UNCOMPRESSED", CompressionCodec::UNCOMPRESSED.0, 0),
        ("CompressionCodec::SNAPPY", CompressionCodec::SNAPPY.0, 1),
        ("CompressionCodec::GZIP", CompressionCodec::GZIP.0, 2),
        ("CompressionCodec::LZO", CompressionCodec::LZO.0, 3),
        ("CompressionCodec::BROTLI", CompressionCodec::BROTLI.0, 4),
        ("CompressionCodec::LZ4", CompressionCodec::LZ4.0, 5),
        ("CompressionCodec::ZSTD", CompressionCodec::ZSTD.0, 6),
        ("CompressionCodec::LZ4_RAW", CompressionCodec::LZ4_RAW.0, 7),
        ("PageType::DATA_PAGE", PageType::DATA_PAGE.0, 0),
        ("PageType::INDEX_PAGE", PageType::INDEX_PAGE.0, 1),
        ("PageType::DICTIONARY_PAGE", PageType::DICTIONARY_PAGE.0, 2),
        ("PageType::DATA_PAGE_V2", PageType::DATA_PAGE_V2.0, 3),
        ("BoundaryOrder::UNORDERED", BoundaryOrder::UNORDERED.0, 0),
        ("BoundaryOrder::ASCENDING", BoundaryOrder::ASCENDING.0, 1),
        ("BoundaryOrder::DESCENDING", BoundaryOrder::DESCENDING.0, 2),
    ]
}
