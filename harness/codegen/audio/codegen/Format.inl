PLY_STRUCT_BEGIN(ply::audio::Format)
PLY_STRUCT_MEMBER(numChannels)
PLY_STRUCT_MEMBER(sampleType)
PLY_STRUCT_MEMBER(stride)
PLY_STRUCT_END()

PLY_ENUM_BEGIN(ply::audio::, Format::SampleType)
PLY_ENUM_IDENTIFIER(S16)
PLY_ENUM_IDENTIFIER(Float)
PLY_ENUM_IDENTIFIER(Num)
PLY_ENUM_END()

