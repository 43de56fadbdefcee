PLY_STRUCT_BEGIN(ply::audio::Buffer)
PLY_STRUCT_MEMBER(numSamples)
PLY_STRUCT_MEMBER(sampleRate)
PLY_STRUCT_MEMBER(format)
PLY_STRUCT_END()

