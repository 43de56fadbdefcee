PLY_STRUCT_BEGIN(ply::audio::OfflineClipNode)
PLY_STRUCT_MEMBER(buffer)
PLY_STRUCT_MEMBER(samples)
PLY_STRUCT_END()

PLY_STRUCT_BEGIN(ply::audio::OfflineClip)
PLY_STRUCT_MEMBER(node)
PLY_STRUCT_END()

