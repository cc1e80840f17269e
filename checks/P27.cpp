// P27: enumerated values and their texts.
#include "FCollada.h"
#include "FUtils/FUDaeEnum.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDEffectPassState.h"
#include <map>
#include <set>
#include "mc.h"
const char* mc::property = "P27"; const char* mc::level = "model_checking";
const char* mc::rule = "every value of every enumeration, every valid text, every text at edit distance one from a valid text (deletion, insertion, replacement, case change, swap) and all texts of up to two letters; a case is non-trivial when a conversion was compared with the table of the COLLADA texts";
std::vector<std::string> mc::assumptions = { "the texts are those of the COLLADA 1.4.1 schema and of the ColladaMaya profile" };
using std::string;
typedef std::vector<std::pair<string, int> > Table;
struct Enum { const char* name; Table table; int other; int (*from)(const char*); int (*fromString)(const string&); string (*to)(int); };
#define TO(ns, en) [](int v) { const char* t = ns::ToString((ns::en) v); return string(t ? t : "(null)"); }
static const std::vector<Enum> ENUMS = {
	{ "FUDaeInterpolation", { { "STEP", FUDaeInterpolation::STEP }, { "LINEAR", FUDaeInterpolation::LINEAR }, { "BEZIER", FUDaeInterpolation::BEZIER }, { "TCB", FUDaeInterpolation::TCB } }, FUDaeInterpolation::UNKNOWN, [](const char* t) { return (int) FUDaeInterpolation::FromString(fm::string(t)); }, [](const string& t) { return (int) FUDaeInterpolation::FromString(fm::string(t.c_str())); }, TO(FUDaeInterpolation, Interpolation) },
	{ "FUDaeSplineType", { { "LINEAR", FUDaeSplineType::LINEAR }, { "BEZIER", FUDaeSplineType::BEZIER }, { "NURBS", FUDaeSplineType::NURBS } }, FUDaeSplineType::UNKNOWN, [](const char* t) { return (int) FUDaeSplineType::FromString(fm::string(t)); }, [](const string& t) { return (int) FUDaeSplineType::FromString(fm::string(t.c_str())); }, TO(FUDaeSplineType, Type) },
	{ "FUDaeSplineForm", { { "OPEN", FUDaeSplineForm::OPEN }, { "CLOSED", FUDaeSplineForm::CLOSED } }, FUDaeSplineForm::UNKNOWN, [](const char* t) { return (int) FUDaeSplineForm::FromString(fm::string(t)); }, [](const string& t) { return (int) FUDaeSplineForm::FromString(fm::string(t.c_str())); }, TO(FUDaeSplineForm, Form) },
	{ "FUDaeTextureChannel", { { "AMBIENT", FUDaeTextureChannel::AMBIENT }, { "BUMP", FUDaeTextureChannel::BUMP }, { "DIFFUSE", FUDaeTextureChannel::DIFFUSE }, { "DISPLACEMENT", FUDaeTextureChannel::DISPLACEMENT }, { "GLOW", FUDaeTextureChannel::EMISSION }, { "FILTER", FUDaeTextureChannel::FILTER }, { "REFLECTION", FUDaeTextureChannel::REFLECTION }, { "REFRACTION", FUDaeTextureChannel::REFRACTION }, { "SHININESS", FUDaeTextureChannel::SHININESS }, { "SPECULAR", FUDaeTextureChannel::SPECULAR }, { "SPECULAR-LEVEL", FUDaeTextureChannel::SPECULAR_LEVEL }, { "TRANSPARENT", FUDaeTextureChannel::TRANSPARENT } }, FUDaeTextureChannel::UNKNOWN, [](const char* t) { return (int) FUDaeTextureChannel::FromString(fm::string(t)); }, [](const string& t) { return (int) FUDaeTextureChannel::FromString(fm::string(t.c_str())); }, NULL },
	{ "FUDaeTextureWrapMode", { { "NONE", FUDaeTextureWrapMode::NONE }, { "WRAP", FUDaeTextureWrapMode::WRAP }, { "MIRROR", FUDaeTextureWrapMode::MIRROR }, { "CLAMP", FUDaeTextureWrapMode::CLAMP }, { "BORDER", FUDaeTextureWrapMode::BORDER } }, FUDaeTextureWrapMode::UNKNOWN, [](const char* t) { return (int) FUDaeTextureWrapMode::FromString(t); }, [](const string& t) { return (int) FUDaeTextureWrapMode::FromString(fm::string(t.c_str())); }, TO(FUDaeTextureWrapMode, WrapMode) },
	{ "FUDaeTextureFilterFunction", { { "NONE", FUDaeTextureFilterFunction::NONE }, { "NEAREST", FUDaeTextureFilterFunction::NEAREST }, { "LINEAR", FUDaeTextureFilterFunction::LINEAR }, { "NEAREST_MIPMAP_NEAREST", FUDaeTextureFilterFunction::NEAREST_MIPMAP_NEAREST }, { "LINEAR_MIPMAP_NEAREST", FUDaeTextureFilterFunction::LINEAR_MIPMAP_NEAREST }, { "NEAREST_MIPMAP_LINEAR", FUDaeTextureFilterFunction::NEAREST_MIPMAP_LINEAR }, { "LINEAR_MIPMAP_LINEAR", FUDaeTextureFilterFunction::LINEAR_MIPMAP_LINEAR } }, FUDaeTextureFilterFunction::UNKNOWN, [](const char* t) { return (int) FUDaeTextureFilterFunction::FromString(t); }, [](const string& t) { return (int) FUDaeTextureFilterFunction::FromString(fm::string(t.c_str())); }, TO(FUDaeTextureFilterFunction, FilterFunction) },
	{ "FUDaeMorphMethod", { { "NORMALIZED", FUDaeMorphMethod::NORMALIZED }, { "RELATIVE", FUDaeMorphMethod::RELATIVE } }, FUDaeMorphMethod::DEFAULT, [](const char* t) { return (int) FUDaeMorphMethod::FromString(t); }, [](const string& t) { return (int) FUDaeMorphMethod::FromString(fm::string(t.c_str())); }, TO(FUDaeMorphMethod, Method) },
	{ "FUDaeInfinity", { { "CONSTANT", FUDaeInfinity::CONSTANT }, { "LINEAR", FUDaeInfinity::LINEAR }, { "CYCLE", FUDaeInfinity::CYCLE }, { "CYCLE_RELATIVE", FUDaeInfinity::CYCLE_RELATIVE }, { "OSCILLATE", FUDaeInfinity::OSCILLATE } }, FUDaeInfinity::DEFAULT, [](const char* t) { return (int) FUDaeInfinity::FromString(t); }, [](const string& t) { return (int) FUDaeInfinity::FromString(fm::string(t.c_str())); }, TO(FUDaeInfinity, Infinity) },
	{ "FUDaeBlendMode", { { "NONE", FUDaeBlendMode::NONE }, { "OVER", FUDaeBlendMode::OVER }, { "IN", FUDaeBlendMode::IN }, { "OUT", FUDaeBlendMode::OUT }, { "ADD", FUDaeBlendMode::ADD }, { "SUBTRACT", FUDaeBlendMode::SUBTRACT }, { "MULTIPLY", FUDaeBlendMode::MULTIPLY }, { "DIFFERENCE", FUDaeBlendMode::DIFFERENCE }, { "LIGHTEN", FUDaeBlendMode::LIGHTEN }, { "DARKEN", FUDaeBlendMode::DARKEN }, { "SATURATE", FUDaeBlendMode::SATURATE }, { "DESATURATE", FUDaeBlendMode::DESATURATE }, { "ILLUMINATE", FUDaeBlendMode::ILLUMINATE } }, FUDaeBlendMode::UNKNOWN, [](const char* t) { return (int) FUDaeBlendMode::FromString(t); }, [](const string& t) { return (int) FUDaeBlendMode::FromString(fm::string(t.c_str())); }, TO(FUDaeBlendMode, Mode) },
	{ "FUDaeGeometryInput", { { "POSITION", FUDaeGeometryInput::POSITION }, { "VERTEX", FUDaeGeometryInput::VERTEX }, { "NORMAL", FUDaeGeometryInput::NORMAL }, { "TANGENT", FUDaeGeometryInput::GEOTANGENT }, { "BINORMAL", FUDaeGeometryInput::GEOBINORMAL }, { "TEXCOORD", FUDaeGeometryInput::TEXCOORD }, { "TEXTANGENT", FUDaeGeometryInput::TEXTANGENT }, { "TEXBINORMAL", FUDaeGeometryInput::TEXBINORMAL }, { "UV", FUDaeGeometryInput::UV }, { "COLOR", FUDaeGeometryInput::COLOR }, { "POINT_SIZE", FUDaeGeometryInput::POINT_SIZE }, { "POINT_ROT", FUDaeGeometryInput::POINT_ROTATION }, { "EXTRA", FUDaeGeometryInput::EXTRA } }, FUDaeGeometryInput::UNKNOWN, [](const char* t) { return (int) FUDaeGeometryInput::FromString(t); }, [](const string& t) { return (int) FUDaeGeometryInput::FromString(fm::string(t.c_str())); }, TO(FUDaeGeometryInput, Semantic) },
	{ "FUDaeProfileType", { { "profile_COMMON", FUDaeProfileType::COMMON }, { "profile_CG", FUDaeProfileType::CG }, { "profile_HLSL", FUDaeProfileType::HLSL }, { "profile_GLSL", FUDaeProfileType::GLSL }, { "profile_GLES", FUDaeProfileType::GLES } }, FUDaeProfileType::UNKNOWN, [](const char* t) { return (int) FUDaeProfileType::FromString(t); }, [](const string& t) { return (int) FUDaeProfileType::FromString(fm::string(t.c_str())); }, TO(FUDaeProfileType, Type) },
	{ "FUDaePassStateFunction", { { "NEVER", FUDaePassStateFunction::NEVER }, { "LESS", FUDaePassStateFunction::LESS }, { "EQUAL", FUDaePassStateFunction::EQUAL }, { "LEQUAL", FUDaePassStateFunction::LESS_EQUAL }, { "GREATER", FUDaePassStateFunction::GREATER }, { "NOTEQUAL", FUDaePassStateFunction::NOT_EQUAL }, { "GEQUAL", FUDaePassStateFunction::GREATER_EQUAL }, { "ALWAYS", FUDaePassStateFunction::ALWAYS } }, FUDaePassStateFunction::INVALID, [](const char* t) { return (int) FUDaePassStateFunction::FromString(t); }, [](const string& t) { return (int) FUDaePassStateFunction::FromString(fm::string(t.c_str())); }, TO(FUDaePassStateFunction, Function) },
	{ "FUDaePassStateStencilOperation", { { "KEEP", FUDaePassStateStencilOperation::KEEP }, { "ZERO", FUDaePassStateStencilOperation::ZERO }, { "REPLACE", FUDaePassStateStencilOperation::REPLACE }, { "INCR", FUDaePassStateStencilOperation::INCREMENT }, { "DECR", FUDaePassStateStencilOperation::DECREMENT }, { "INVERT", FUDaePassStateStencilOperation::INVERT }, { "INCR_WRAP", FUDaePassStateStencilOperation::INCREMENT_WRAP }, { "DECR_WRAP", FUDaePassStateStencilOperation::DECREMENT_WRAP } }, FUDaePassStateStencilOperation::INVALID, [](const char* t) { return (int) FUDaePassStateStencilOperation::FromString(t); }, [](const string& t) { return (int) FUDaePassStateStencilOperation::FromString(fm::string(t.c_str())); }, TO(FUDaePassStateStencilOperation, Operation) },
	{ "FUDaePassStateBlendType", { { "ZERO", FUDaePassStateBlendType::ZERO }, { "ONE", FUDaePassStateBlendType::ONE }, { "SRC_COLOR", FUDaePassStateBlendType::SOURCE_COLOR }, { "ONE_MINUS_SRC_COLOR", FUDaePassStateBlendType::ONE_MINUS_SOURCE_COLOR }, { "DEST_COLOR", FUDaePassStateBlendType::DESTINATION_COLOR }, { "ONE_MINUS_DEST_COLOR", FUDaePassStateBlendType::ONE_MINUS_DESTINATION_COLOR }, { "SRC_ALPHA", FUDaePassStateBlendType::SOURCE_ALPHA }, { "ONE_MINUS_SRC_ALPHA", FUDaePassStateBlendType::ONE_MINUS_SOURCE_ALPHA }, { "DEST_ALPHA", FUDaePassStateBlendType::DESTINATION_ALPHA }, { "ONE_MINUS_DEST_ALPHA", FUDaePassStateBlendType::ONE_MINUS_DESTINATION_ALPHA }, { "CONSTANT_COLOR", FUDaePassStateBlendType::CONSTANT_COLOR }, { "ONE_MINUS_CONSTANT_COLOR", FUDaePassStateBlendType::ONE_MINUS_CONSTANT_COLOR }, { "CONSTANT_ALPHA", FUDaePassStateBlendType::CONSTANT_ALPHA }, { "ONE_MINUS_CONSTANT_ALPHA", FUDaePassStateBlendType::ONE_MINUS_CONSTANT_ALPHA }, { "SRC_ALPHA_SATURATE", FUDaePassStateBlendType::SOURCE_ALPHA_SATURATE } }, FUDaePassStateBlendType::INVALID, [](const char* t) { return (int) FUDaePassStateBlendType::FromString(t); }, [](const string& t) { return (int) FUDaePassStateBlendType::FromString(fm::string(t.c_str())); }, TO(FUDaePassStateBlendType, Type) },
	{ "FUDaePassStateFaceType", { { "FRONT", FUDaePassStateFaceType::FRONT }, { "BACK", FUDaePassStateFaceType::BACK }, { "FRONT_AND_BACK", FUDaePassStateFaceType::FRONT_AND_BACK } }, FUDaePassStateFaceType::INVALID, [](const char* t) { return (int) FUDaePassStateFaceType::FromString(t); }, [](const string& t) { return (int) FUDaePassStateFaceType::FromString(fm::string(t.c_str())); }, TO(FUDaePassStateFaceType, Type) },
	{ "FUDaePassStateBlendEquation", { { "FUNC_ADD", FUDaePassStateBlendEquation::ADD }, { "FUNC_SUBTRACT", FUDaePassStateBlendEquation::SUBTRACT }, { "FUNC_REVERSE_SUBTRACT", FUDaePassStateBlendEquation::REVERSE_SUBTRACT }, { "MIN", FUDaePassStateBlendEquation::MIN }, { "MAX", FUDaePassStateBlendEquation::MAX } }, FUDaePassStateBlendEquation::INVALID, [](const char* t) { return (int) FUDaePassStateBlendEquation::FromString(t); }, [](const string& t) { return (int) FUDaePassStateBlendEquation::FromString(fm::string(t.c_str())); }, TO(FUDaePassStateBlendEquation, Equation) },
	{ "FUDaePassStateMaterialType", { { "EMISSION", FUDaePassStateMaterialType::EMISSION }, { "AMBIENT", FUDaePassStateMaterialType::AMBIENT }, { "DIFFUSE", FUDaePassStateMaterialType::DIFFUSE }, { "SPECULAR", FUDaePassStateMaterialType::SPECULAR }, { "AMBIENT_AND_DIFFUSE", FUDaePassStateMaterialType::AMBIENT_AND_DIFFUSE } }, FUDaePassStateMaterialType::INVALID, [](const char* t) { return (int) FUDaePassStateMaterialType::FromString(t); }, [](const string& t) { return (int) FUDaePassStateMaterialType::FromString(fm::string(t.c_str())); }, TO(FUDaePassStateMaterialType, Type) },
	{ "FUDaePassStateFogType", { { "LINEAR", FUDaePassStateFogType::LINEAR }, { "EXP", FUDaePassStateFogType::EXP }, { "EXP2", FUDaePassStateFogType::EXP2 } }, FUDaePassStateFogType::INVALID, [](const char* t) { return (int) FUDaePassStateFogType::FromString(t); }, [](const string& t) { return (int) FUDaePassStateFogType::FromString(fm::string(t.c_str())); }, TO(FUDaePassStateFogType, Type) },
	{ "FUDaePassStateFogCoordinateType", { { "FOG_COORDINATE", FUDaePassStateFogCoordinateType::FOG_COORDINATE }, { "FRAGMENT_DEPTH", FUDaePassStateFogCoordinateType::FRAGMENT_DEPTH } }, FUDaePassStateFogCoordinateType::INVALID, [](const char* t) { return (int) FUDaePassStateFogCoordinateType::FromString(t); }, [](const string& t) { return (int) FUDaePassStateFogCoordinateType::FromString(fm::string(t.c_str())); }, TO(FUDaePassStateFogCoordinateType, Type) },
	{ "FUDaePassStateFrontFaceType", { { "CW", FUDaePassStateFrontFaceType::CLOCKWISE }, { "CCW", FUDaePassStateFrontFaceType::COUNTER_CLOCKWISE } }, FUDaePassStateFrontFaceType::INVALID, [](const char* t) { return (int) FUDaePassStateFrontFaceType::FromString(t); }, [](const string& t) { return (int) FUDaePassStateFrontFaceType::FromString(fm::string(t.c_str())); }, TO(FUDaePassStateFrontFaceType, Type) },
	{ "FUDaePassStateLogicOperation", { { "CLEAR", FUDaePassStateLogicOperation::CLEAR }, { "AND", FUDaePassStateLogicOperation::AND }, { "AND_REVERSE", FUDaePassStateLogicOperation::AND_REVERSE }, { "COPY", FUDaePassStateLogicOperation::COPY }, { "AND_INVERTED", FUDaePassStateLogicOperation::AND_INVERTED }, { "NOOP", FUDaePassStateLogicOperation::NOOP }, { "XOR", FUDaePassStateLogicOperation::XOR }, { "OR", FUDaePassStateLogicOperation::OR }, { "NOR", FUDaePassStateLogicOperation::NOR }, { "EQUIV", FUDaePassStateLogicOperation::EQUIV }, { "INVERT", FUDaePassStateLogicOperation::INVERT }, { "OR_REVERSE", FUDaePassStateLogicOperation::OR_REVERSE }, { "COPY_INVERTED", FUDaePassStateLogicOperation::COPY_INVERTED }, { "NAND", FUDaePassStateLogicOperation::NAND }, { "SET", FUDaePassStateLogicOperation::SET } }, FUDaePassStateLogicOperation::INVALID, [](const char* t) { return (int) FUDaePassStateLogicOperation::FromString(t); }, [](const string& t) { return (int) FUDaePassStateLogicOperation::FromString(fm::string(t.c_str())); }, TO(FUDaePassStateLogicOperation, Operation) },
	{ "FUDaePassStatePolygonMode", { { "POINT", FUDaePassStatePolygonMode::POINT }, { "LINE", FUDaePassStatePolygonMode::LINE }, { "FILL", FUDaePassStatePolygonMode::FILL } }, FUDaePassStatePolygonMode::INVALID, [](const char* t) { return (int) FUDaePassStatePolygonMode::FromString(t); }, [](const string& t) { return (int) FUDaePassStatePolygonMode::FromString(fm::string(t.c_str())); }, TO(FUDaePassStatePolygonMode, Mode) },
	{ "FUDaePassStateShadeModel", { { "FLAT", FUDaePassStateShadeModel::FLAT }, { "SMOOTH", FUDaePassStateShadeModel::SMOOTH } }, FUDaePassStateShadeModel::INVALID, [](const char* t) { return (int) FUDaePassStateShadeModel::FromString(t); }, [](const string& t) { return (int) FUDaePassStateShadeModel::FromString(fm::string(t.c_str())); }, TO(FUDaePassStateShadeModel, Model) },
	{ "FUDaePassStateLightModelColorControlType", { { "SINGLE_COLOR", FUDaePassStateLightModelColorControlType::SINGLE_COLOR }, { "SEPARATE_SPECULAR_COLOR", FUDaePassStateLightModelColorControlType::SEPARATE_SPECULAR_COLOR } }, FUDaePassStateLightModelColorControlType::INVALID, [](const char* t) { return (int) FUDaePassStateLightModelColorControlType::FromString(t); }, [](const string& t) { return (int) FUDaePassStateLightModelColorControlType::FromString(fm::string(t.c_str())); }, TO(FUDaePassStateLightModelColorControlType, Type) },
	{ "FUDaePassState", { { "alpha_func", FUDaePassState::ALPHA_FUNC }, { "blend_func", FUDaePassState::BLEND_FUNC }, { "blend_func_separate", FUDaePassState::BLEND_FUNC_SEPARATE }, { "blend_equation", FUDaePassState::BLEND_EQUATION }, { "blend_equation_separate", FUDaePassState::BLEND_EQUATION_SEPARATE }, { "color_material", FUDaePassState::COLOR_MATERIAL }, { "cull_face", FUDaePassState::CULL_FACE }, { "depth_func", FUDaePassState::DEPTH_FUNC }, { "fog_mode", FUDaePassState::FOG_MODE }, { "fog_coord_src", FUDaePassState::FOG_COORD_SRC }, { "front_face", FUDaePassState::FRONT_FACE }, { "light_model_color_control", FUDaePassState::LIGHT_MODEL_COLOR_CONTROL }, { "logic_op", FUDaePassState::LOGIC_OP }, { "polygon_mode", FUDaePassState::POLYGON_MODE }, { "shade_model", FUDaePassState::SHADE_MODEL }, { "stencil_func", FUDaePassState::STENCIL_FUNC }, { "stencil_op", FUDaePassState::STENCIL_OP }, { "stencil_func_separate", FUDaePassState::STENCIL_FUNC_SEPARATE }, { "stencil_op_separate", FUDaePassState::STENCIL_OP_SEPARATE }, { "stencil_mask_separate", FUDaePassState::STENCIL_MASK_SEPARATE }, { "light_enable", FUDaePassState::LIGHT_ENABLE }, { "light_ambient", FUDaePassState::LIGHT_AMBIENT }, { "light_diffuse", FUDaePassState::LIGHT_DIFFUSE }, { "light_specular", FUDaePassState::LIGHT_SPECULAR }, { "light_position", FUDaePassState::LIGHT_POSITION }, { "light_constant_attenuation", FUDaePassState::LIGHT_CONSTANT_ATTENUATION }, { "light_linear_attenuation", FUDaePassState::LIGHT_LINEAR_ATTENUATION }, { "light_quadratic_attenuation", FUDaePassState::LIGHT_QUADRATIC_ATTENUATION }, { "light_spot_cutoff", FUDaePassState::LIGHT_SPOT_CUTOFF }, { "light_spot_direction", FUDaePassState::LIGHT_SPOT_DIRECTION }, { "light_spot_exponent", FUDaePassState::LIGHT_SPOT_EXPONENT }, { "texture1D", FUDaePassState::TEXTURE1D }, { "texture2D", FUDaePassState::TEXTURE2D }, { "texture3D", FUDaePassState::TEXTURE3D }, { "textureCUBE", FUDaePassState::TEXTURECUBE }, { "textureRECT", FUDaePassState::TEXTURERECT }, { "textureDEPTH", FUDaePassState::TEXTUREDEPTH }, { "texture1D_enable", FUDaePassState::TEXTURE1D_ENABLE }, { "texture2D_enable", FUDaePassState::TEXTURE2D_ENABLE }, { "texture3D_enable", FUDaePassState::TEXTURE3D_ENABLE }, { "textureCUBE_enable", FUDaePassState::TEXTURECUBE_ENABLE }, { "textureRECT_enable", FUDaePassState::TEXTURERECT_ENABLE }, { "textureDEPTH_enable", FUDaePassState::TEXTUREDEPTH_ENABLE }, { "texture_env_color", FUDaePassState::TEXTURE_ENV_COLOR }, { "texture_env_mode", FUDaePassState::TEXTURE_ENV_MODE }, { "clip_plane", FUDaePassState::CLIP_PLANE }, { "clip_plane_enable", FUDaePassState::CLIP_PLANE_ENABLE }, { "blend_color", FUDaePassState::BLEND_COLOR }, { "clear_color", FUDaePassState::CLEAR_COLOR }, { "clear_stencil", FUDaePassState::CLEAR_STENCIL }, { "clear_depth", FUDaePassState::CLEAR_DEPTH }, { "color_mask", FUDaePassState::COLOR_MASK }, { "depth_bounds", FUDaePassState::DEPTH_BOUNDS }, { "depth_mask", FUDaePassState::DEPTH_MASK }, { "depth_range", FUDaePassState::DEPTH_RANGE }, { "fog_density", FUDaePassState::FOG_DENSITY }, { "fog_start", FUDaePassState::FOG_START }, { "fog_end", FUDaePassState::FOG_END }, { "fog_color", FUDaePassState::FOG_COLOR }, { "light_model_ambient", FUDaePassState::LIGHT_MODEL_AMBIENT }, { "lighting_enable", FUDaePassState::LIGHTING_ENABLE }, { "line_stipple", FUDaePassState::LINE_STIPPLE }, { "line_width", FUDaePassState::LINE_WIDTH }, { "material_ambient", FUDaePassState::MATERIAL_AMBIENT }, { "material_diffuse", FUDaePassState::MATERIAL_DIFFUSE }, { "material_emission", FUDaePassState::MATERIAL_EMISSION }, { "material_shininess", FUDaePassState::MATERIAL_SHININESS }, { "material_specular", FUDaePassState::MATERIAL_SPECULAR }, { "model_view_matrix", FUDaePassState::MODEL_VIEW_MATRIX }, { "point_distance_attenuation", FUDaePassState::POINT_DISTANCE_ATTENUATION }, { "point_fade_threshold_size", FUDaePassState::POINT_FADE_THRESHOLD_SIZE }, { "point_size", FUDaePassState::POINT_SIZE }, { "point_size_min", FUDaePassState::POINT_SIZE_MIN }, { "point_size_max", FUDaePassState::POINT_SIZE_MAX }, { "polygon_offset", FUDaePassState::POLYGON_OFFSET }, { "projection_matrix", FUDaePassState::PROJECTION_MATRIX }, { "scissor", FUDaePassState::SCISSOR }, { "stencil_mask", FUDaePassState::STENCIL_MASK }, { "alpha_test_enable", FUDaePassState::ALPHA_TEST_ENABLE }, { "auto_normal_enable", FUDaePassState::AUTO_NORMAL_ENABLE }, { "blend_enable", FUDaePassState::BLEND_ENABLE }, { "color_logic_op_enable", FUDaePassState::COLOR_LOGIC_OP_ENABLE }, { "color_material_enable", FUDaePassState::COLOR_MATERIAL_ENABLE }, { "cull_face_enable", FUDaePassState::CULL_FACE_ENABLE }, { "depth_bounds_enable", FUDaePassState::DEPTH_BOUNDS_ENABLE }, { "depth_clamp_enable", FUDaePassState::DEPTH_CLAMP_ENABLE }, { "depth_test_enable", FUDaePassState::DEPTH_TEST_ENABLE }, { "dither_enable", FUDaePassState::DITHER_ENABLE }, { "fog_enable", FUDaePassState::FOG_ENABLE }, { "light_model_local_viewer_enable", FUDaePassState::LIGHT_MODEL_LOCAL_VIEWER_ENABLE }, { "light_model_two_side_enable", FUDaePassState::LIGHT_MODEL_TWO_SIDE_ENABLE }, { "line_smooth_enable", FUDaePassState::LINE_SMOOTH_ENABLE }, { "line_stipple_enable", FUDaePassState::LINE_STIPPLE_ENABLE }, { "logic_op_enable", FUDaePassState::LOGIC_OP_ENABLE }, { "multisample_enable", FUDaePassState::MULTISAMPLE_ENABLE }, { "normalize_enable", FUDaePassState::NORMALIZE_ENABLE }, { "point_smooth_enable", FUDaePassState::POINT_SMOOTH_ENABLE }, { "polygon_offset_fill_enable", FUDaePassState::POLYGON_OFFSET_FILL_ENABLE }, { "polygon_offset_line_enable", FUDaePassState::POLYGON_OFFSET_LINE_ENABLE }, { "polygon_offset_point_enable", FUDaePassState::POLYGON_OFFSET_POINT_ENABLE }, { "polygon_smooth_enable", FUDaePassState::POLYGON_SMOOTH_ENABLE }, { "polygon_stipple_enable", FUDaePassState::POLYGON_STIPPLE_ENABLE }, { "rescale_normal_enable", FUDaePassState::RESCALE_NORMAL_ENABLE }, { "sample_alpha_to_coverage_enable", FUDaePassState::SAMPLE_ALPHA_TO_COVERAGE_ENABLE }, { "sample_alpha_to_one_enable", FUDaePassState::SAMPLE_ALPHA_TO_ONE_ENABLE }, { "sample_coverage_enable", FUDaePassState::SAMPLE_COVERAGE_ENABLE }, { "scissor_test_enable", FUDaePassState::SCISSOR_TEST_ENABLE }, { "stencil_test_enable", FUDaePassState::STENCIL_TEST_ENABLE } }, FUDaePassState::INVALID, [](const char* t) { return (int) FUDaePassState::FromString(t); }, [](const string& t) { return (int) FUDaePassState::FromString(fm::string(t.c_str())); }, TO(FUDaePassState, State) },
};
static int expected(const Enum& e, const string& t) { if (t.empty() && string(e.name) == "FUDaeInterpolation") return FUDaeInterpolation::BEZIER; for (const auto& r : e.table) if (r.first == t) return r.second; return e.other; }
static void parse(mc::Ctx& c, const Enum& e, const string& t)
{
	c.op("%s: '%s'", e.name, t.c_str()); int w = expected(e, t), g = e.from(t.c_str()), h = e.fromString(t); CHECK(g == w && h == w, "enum:from", "%s '%s' gives %d and %d, should be %d", e.name, t.c_str(), g, h, w); c.nontrivial(); c.state(mc::strf("%s %d", e.name, g));
}
SPACE(values, 1)
{
	const Enum& e = ENUMS[c.choose((int) ENUMS.size())]; const auto& r = e.table[c.choose((int) e.table.size())]; parse(c, e, r.first);
	if (e.to) { CHECK(e.to(r.second) == r.first, "enum:to", "%s %d gives '%s', should be '%s'", e.name, r.second, e.to(r.second).c_str(), r.first.c_str());
		for (const auto& o : e.table) if (o.second != r.second) CHECK(e.to(o.second) != e.to(r.second), "enum:distinct", "%s: '%s' twice", e.name, r.first.c_str());
		int u = e.from(e.to(e.other).c_str()); CHECK(u == e.other || (string(e.name) == "FUDaeBlendMode" && u == FUDaeBlendMode::DEFAULT), "enum:unknown", "%s: unknown gives '%s'", e.name, e.to(e.other).c_str()); }
}
SPACE(edits, 2)
{
	const Enum& e = ENUMS[c.choose((int) ENUMS.size())]; string t = e.table[c.choose((int) e.table.size())].first; int p = c.choose((int) t.size() + 1), k = c.choose(5); static const string A = "ABCEFLNOPRSTXYZaestxyz_0129 -.";
	if (k == 0) { if (p == (int) t.size()) c.prune(); t.erase(p, 1); } else if (k == 1) t.insert(p, 1, A[c.choose((int) A.size())]); else if (k == 2) { if (p == (int) t.size()) c.prune(); t[p] = A[c.choose((int) A.size())]; } else if (k == 3) { if (p == (int) t.size()) for (char& x : t) x ^= isalpha(x) ? 0x20 : 0; else t[p] ^= isalpha(t[p]) ? 0x20 : 1; } else { if (p + 1 >= (int) t.size()) c.prune(); std::swap(t[p], t[p + 1]); }
	if (c.deep && c.flag()) { int q = c.choose((int) t.size() + 1); t.insert(q, 1, A[c.choose((int) A.size())]); }
	parse(c, e, t);
}
SPACE(others, 1)
{
	const Enum& e = ENUMS[c.choose((int) ENUMS.size())]; static const string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZ_ 01aez"; string t; int n = c.range(0, c.deep ? 3 : 2); for (int i = 0; i < n; ++i) t += A[c.choose((int) A.size())]; parse(c, e, t);
}
SPACE(crossed, 1)
{
	const Enum& e = ENUMS[c.choose((int) ENUMS.size())]; const Enum& o = ENUMS[c.choose((int) ENUMS.size())]; for (const auto& r : o.table) { parse(c, e, r.first); for (const auto& q : e.table) if (c.deep || &r == &o.table[0]) parse(c, e, r.first + q.first); }
}
