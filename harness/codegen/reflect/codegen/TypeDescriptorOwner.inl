PLY_STRUCT_BEGIN(ply::EmptyType)
PLY_STRUCT_END()

