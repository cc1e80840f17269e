// P02: export followed by import gives back materials, effects, images, physics, force fields and emitters.
#ifndef GRAMMAR_ONLY // P18 uses the grammar alone
#include "trip.h"
const char* mc::property = "P02"; const char* mc::level = "model_checking";
const char* mc::rule = "every document of a bounded grammar per feature area (images, materials, effect parameters in every place, samplers, surfaces, common and FX profiles, every render state with every value of each field, animated effects, physics materials, models, scenes and instances, force fields, emitters) is exported, imported and exported again by the real library; everything its public getters report is compared before, after and again, and both exported texts are compared";
std::vector<std::string> mc::assumptions = { "values are exactly representable with the digits that are exported", "what a format element cannot hold is not set (semantics of parameters that are not generated, values next to textures, colours of unused lighting models)", "file times are not compared" };
static bool init = (mc::workerInit = [] { FCollada::Initialize(); }, true);
#endif
using std::string; using std::vector;
typedef FUObjectRef<FCDocument> Doc; static Doc top() { return FCollada::NewTopDocument(); }
static const vector<string> TEXT = { "plain", "two words", "a&b <c> \"d\" 'e'", "100% of %", "caf\xc3\xa9", "x;y#z/w(1)", "line one\nline two" };
static fstring fs(const string& s) { return fstring(s.c_str()); }
static void fill(FCDExtra* e, int k) { if (!k) return; FCDETechnique* t = e->GetDefaultType()->AddTechnique("TEST"); FCDENode* n = t->AddChildNode("thing"); n->AddAttribute("kind", FC("some kind")); n->AddChildNode("leaf")->SetContent(fs(TEXT[k % TEXT.size()])); }
static FCDImage* image(FCDocument* d, const char* name = "pic") { FCDImage* i = d->GetImageLibrary()->AddEntity(); i->SetName(fs(name)); i->SetFilename(fs(string("/pictures/") + name + ".png")); return i; }
static void animate(FCDAnimated* a, size_t component, FCDocument* d) { FCDAnimationChannel* ch = d->GetAnimationLibrary()->AddEntity()->AddChannel(); FCDAnimationCurve* k = ch->AddCurve(); for (int i = 0; i < 2; ++i) { FCDAnimationKey* y = k->AddKey(FUDaeInterpolation::LINEAR); y->input = (float) i; y->output = i ? 0.5f : -2.0f; } a->AddCurve(component, k); }
SPACE(images, 3)
{
	static const vector<string> FILE = { "", "/a.png", "/dir/sub/a.png", "/dir with space/b c.png", "/x&y/%d.png", "/a#b.png", "/caf\xc3\xa9/p.png", "/a'b.png" };
	Doc d = top(); FCDImage* i = d->GetImageLibrary()->AddEntity(); int name = c.choose((int) TEXT.size() - 1), file = c.choose((int) FILE.size()), size = c.choose(4), ex = c.choose(2), id = c.choose(2), two = c.choose(2); i->SetName(fs(TEXT[name])); if (!FILE[file].empty()) i->SetFilename(fs(FILE[file])); if (size & 1) i->SetWidth(640); if (size & 2) { i->SetHeight(0xFFFFFFFF); i->SetDepth(3); } fill(i->GetExtra(), ex); if (id) i->SetDaeId(fm::string("chosen")); if (two) image(d);
	c.op("name %d file '%s' size %d extra %d id %d two %d", name, FILE[file].c_str(), size, ex, id, two); trip::check(c, d);
}
// Effect parameters, wherever they can be.
static FCDEffectParameter* parameter(mc::Ctx& c, int type, FCDEffectParameter* p, string& s)
{
	int v = c.choose(type == FCDEffectParameter::BOOLEAN ? 2 : 3), half = type >= FCDEffectParameter::FLOAT && type <= FCDEffectParameter::MATRIX ? c.choose(2) : 0; s += mc::strf("type %d value %d half %d ", type, v, half); static const float X[] = { 0, -2.5f, 0.0625f }; float x = X[v];
	switch (type)
	{
	case FCDEffectParameter::INTEGER: ((FCDEffectParameterInt*) p)->SetValue(v == 2 ? INT_MIN : v ? 7 : 0); break;
	case FCDEffectParameter::BOOLEAN: ((FCDEffectParameterBool*) p)->SetValue(v != 0); break;
	case FCDEffectParameter::STRING: ((FCDEffectParameterString*) p)->SetValue(v ? TEXT[v + 1].c_str() : "text"); break;
	case FCDEffectParameter::FLOAT: ((FCDEffectParameterFloat*) p)->SetValue(x); ((FCDEffectParameterFloat*) p)->SetFloatType((FCDEffectParameterFloat::FloatType) half); break;
	case FCDEffectParameter::FLOAT2: ((FCDEffectParameterFloat2*) p)->SetValue(FMVector2(x, 3)); ((FCDEffectParameterFloat2*) p)->SetFloatType((FCDEffectParameterFloat2::FloatType) half); break;
	case FCDEffectParameter::FLOAT3: ((FCDEffectParameterFloat3*) p)->SetValue(FMVector3(x, 3, -1)); ((FCDEffectParameterFloat3*) p)->SetFloatType((FCDEffectParameterFloat3::FloatType) half); break;
	case FCDEffectParameter::VECTOR: ((FCDEffectParameterVector*) p)->SetValue(FMVector4(x, 3, -1, 0.5f)); ((FCDEffectParameterVector*) p)->SetFloatType((FCDEffectParameterVector::FloatType) half); break;
	case FCDEffectParameter::MATRIX: { FMMatrix44 m = FMMatrix44::Identity; if (v) { m[3][0] = x; m[0][1] = 2; m[1][0] = -1; } ((FCDEffectParameterMatrix*) p)->SetValue(m); ((FCDEffectParameterMatrix*) p)->SetFloatType((FCDEffectParameterMatrix::FloatType) half); break; }
	}
	return p;
}
SPACE(parameters, 3)
{
	static const vector<int> TYPE = { FCDEffectParameter::INTEGER, FCDEffectParameter::BOOLEAN, FCDEffectParameter::FLOAT, FCDEffectParameter::FLOAT2, FCDEffectParameter::FLOAT3, FCDEffectParameter::VECTOR, FCDEffectParameter::MATRIX, FCDEffectParameter::STRING };
	Doc d = top(); FCDEffect* e = d->GetEffectLibrary()->AddEntity(); e->SetName(FC("effect")); FCDMaterial* m = d->GetMaterialLibrary()->AddEntity(); m->SetEffect(e); int where = c.choose(7), count = c.range(1, 2); string s = mc::strf("place %d: ", where); FCDEffectProfile* common = where == 1 ? e->AddProfile(FUDaeProfileType::COMMON) : NULL; FCDEffectProfileFX* fx = where == 2 || where == 3 || where == 6 ? (FCDEffectProfileFX*) e->AddProfile(FUDaeProfileType::CG) : NULL; FCDEffectTechnique* t = where == 3 || where == 6 ? fx->AddTechnique() : NULL; if (t) { t->SetName(FC("t")); t->AddPass(); } 
	for (int k = 0; k < count; ++k)
	{
		if (k && !c.deep && TYPE.size() > 3) s += "then "; int type = TYPE[k && !c.deep ? c.choose(2) * 7 : c.choose((int) TYPE.size())]; FCDEffectParameter* p = where == 0 || where == 5 ? e->AddEffectParameter(type) : where == 1 ? common->AddEffectParameter(type) : where == 2 ? fx->AddEffectParameter(type) : where == 3 || where == 6 ? t->AddEffectParameter(type) : m->AddEffectParameter(type);
		p->SetReference(mc::strf("param%d", k).c_str()); if (where == 4 || where == 5 || where == 6) p->SetModifier(); else { p->SetGenerator(); int sem = k && !c.deep ? 0 : c.choose(3); if (sem) p->SetSemantic(sem == 1 ? "SOME_SEMANTIC" : TEXT[2].c_str()); s += mc::strf("semantic %d ", sem); }
		int notes = k && !c.deep ? 0 : c.choose(5); if (notes == 1) p->AddAnnotation(FC("note"), FCDEffectParameter::STRING, FC("some text")); if (notes == 2) p->AddAnnotation(FC("a & b"), FCDEffectParameter::BOOLEAN, FC("true")); if (notes == 3) { p->AddAnnotation(FC("one"), FCDEffectParameter::INTEGER, FC("-3")); p->AddAnnotation(FC("two"), FCDEffectParameter::FLOAT, FC("0.5")); } if (notes == 4) p->AddAnnotation(FC("odd"), FCDEffectParameter::STRING, fs(TEXT[2])); s += mc::strf("notes %d ", notes); parameter(c, type, p, s);
	}
	c.op("%s", s.c_str()); trip::check(c, d);
}
SPACE(binds, 3)
{
	// Parameters of a geometry instance's bind_material.
	Doc d = top(); FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); FCDMaterial* m = d->GetMaterialLibrary()->AddEntity(); FCDEffect* e = d->GetEffectLibrary()->AddEntity(); m->SetEffect(e); FCDGeometryInstance* i = (FCDGeometryInstance*) d->AddVisualScene()->AddChildNode()->AddInstance(g); FCDMaterialInstance* mi = i->AddMaterialInstance(); mi->SetMaterial(m); mi->SetSemantic(FC("part"));
	int n = c.range(1, 2); string s; for (int k = 0; k < n; ++k) { int type = c.choose(2) ? FCDEffectParameter::VECTOR : FCDEffectParameter::FLOAT; FCDEffectParameter* p = i->AddEffectParameter(type); p->SetAnimator(); p->SetReference(mc::strf("animated%d", k).c_str()); int sem = c.choose(2); p->SetSemantic(sem ? "OTHER" : "SEMANTIC"); s += mc::strf("type %d semantic %d ", type, sem); }
	int binds = c.choose(4), vertex = c.choose(3); if (binds & 1) mi->AddBinding("MORPH_W", "target.x"); if (binds & 2) mi->AddBinding("OTHER", "second/target(1)"); if (vertex) mi->AddVertexInputBinding("CHANNEL0", FUDaeGeometryInput::TEXCOORD, 1); if (vertex == 2) mi->AddVertexInputBinding("CHANNEL1", FUDaeGeometryInput::COLOR, 0);
	c.op("%sbinds %d vertex %d", s.c_str(), binds, vertex); trip::check(c, d);
}
SPACE(materials, 3)
{
	Doc d = top(); int effect = c.choose(3), name = c.choose((int) TEXT.size() - 1), hints = c.choose(3), ex = c.choose(2), note = c.choose(2); FCDMaterial* m = d->GetMaterialLibrary()->AddEntity(); m->SetName(fs(TEXT[name])); FCDEffect* e = effect ? d->GetEffectLibrary()->AddEntity() : NULL; if (e) { e->SetName(FC("fx")); m->SetEffect(e); } if (!effect && hints) c.prune(); if (effect == 2) d->GetMaterialLibrary()->AddEntity()->SetEffect(e);
	for (int k = 0; k < hints; ++k) { FCDMaterialTechniqueHint h; h.platform = fs(k ? "PS3" : "PC & more"); h.technique = k ? "other" : "high_quality"; m->GetTechniqueHints().push_back(h); } fill(m->GetExtra(), ex); if (e) fill(e->GetExtra(), ex); if (note) m->SetNote(FC("a note")); c.op("effect %d name %d hints %d extra %d note %d", effect, name, hints, ex, note); trip::check(c, d);
}
SPACE(samplers, 3)
{
	Doc d = top(); FCDEffect* e = d->GetEffectLibrary()->AddEntity(); FCDEffectProfile* p = e->AddProfile(c.choose(2) ? FUDaeProfileType::GLSL : FUDaeProfileType::COMMON); FCDEffectParameterSurface* f = (FCDEffectParameterSurface*) p->AddEffectParameter(FCDEffectParameter::SURFACE); f->SetReference("surf"); f->SetGenerator(); f->AddImage(image(d)); FCDEffectParameterSurfaceInitFrom* in = new FCDEffectParameterSurfaceInitFrom(); f->SetInitMethod(in); FCDEffectParameterSurface* f2 = (FCDEffectParameterSurface*) p->AddEffectParameter(FCDEffectParameter::SURFACE); f2->SetReference("surf2"); f2->SetGenerator(); f2->SetInitMethod(new FCDEffectParameterSurfaceInitAsNull());
	FCDEffectParameterSampler* s = (FCDEffectParameterSampler*) p->AddEffectParameter(FCDEffectParameter::SAMPLER); s->SetReference("samp"); s->SetGenerator(); int type = c.choose(4), which = c.choose(3), vary = c.choose(6), value = c.choose(vary < 3 ? 5 : 7); s->SetSamplerType((FCDEffectParameterSampler::SamplerType) type); if (which) s->SetSurface(which == 1 ? f : f2);
	switch (vary) { case 0: s->SetWrapS((FUDaeTextureWrapMode::WrapMode) value); break; case 1: s->SetWrapT((FUDaeTextureWrapMode::WrapMode) value); break; case 2: s->SetWrapP((FUDaeTextureWrapMode::WrapMode) value); break; case 3: s->SetMinFilter((FUDaeTextureFilterFunction::FilterFunction) value); break; case 4: s->SetMagFilter((FUDaeTextureFilterFunction::FilterFunction) value); break; case 5: s->SetMipFilter((FUDaeTextureFilterFunction::FilterFunction) value); break; }
	c.op("type %d surface %d field %d value %d", type, which, vary, value); trip::check(c, d);
}
SPACE(surfaces, 3)
{
	Doc d = top(); FCDEffect* e = d->GetEffectLibrary()->AddEntity(); FCDEffectProfile* p = e->AddProfile(FUDaeProfileType::COMMON); FCDEffectParameterSurface* f = (FCDEffectParameterSurface*) p->AddEffectParameter(FCDEffectParameter::SURFACE); f->SetReference("surf"); f->SetGenerator(); int init = c.choose(7), sub = 0, images = 0; vector<FCDImage*> im; for (int k = 0; k < 6; ++k) im.push_back(image(d, mc::strf("pic%d", k).c_str())); string s = mc::strf("init %d ", init - 1);
	if (init)
	{
		FCDEffectParameterSurfaceInit* m = FCDEffectParameterSurfaceInitFactory::Create((FCDEffectParameterSurfaceInitFactory::InitType) (init - 1)); f->SetInitMethod(m); switch (init - 1)
		{
		case FCDEffectParameterSurfaceInitFactory::FROM: { auto k = (FCDEffectParameterSurfaceInitFrom*) m; images = c.range(1, 3); sub = images ? c.choose(8) : 0; for (int i = 0; i < images; ++i) { if (sub & 1) k->mip.push_back(mc::strf("%d", i).c_str()); if (sub & 2) k->slice.push_back(mc::strf("%d", 3 * i).c_str()); if (sub & 4) k->face.push_back(i == 1 ? "NEGATIVE_X" : i ? "POSITIVE_Z" : "POSITIVE_X"); } break; }
		case FCDEffectParameterSurfaceInitFactory::CUBE: sub = c.choose(3); images = sub == FCDEffectParameterSurfaceInitCube::FACE ? 6 : c.choose(2); ((FCDEffectParameterSurfaceInitCube*) m)->cubeType = (FCDEffectParameterSurfaceInitCube::CubeType) sub; break;
		case FCDEffectParameterSurfaceInitFactory::VOLUME: sub = c.choose(2); images = c.choose(2); ((FCDEffectParameterSurfaceInitVolume*) m)->volumeType = (FCDEffectParameterSurfaceInitVolume::VolumeType) sub; break;
		case FCDEffectParameterSurfaceInitFactory::PLANAR: images = c.choose(2); break;
		}
		for (int i = 0; i < images; ++i) f->AddImage(im[(i + 2) % 6]); s += mc::strf("sub %d images %d ", sub, images);
	}
	int format = c.choose(2), type = c.choose(3), size = c.choose(4), mips = c.choose(2), gen = c.choose(2); if (format) f->SetFormat("A8R8G8B8"); if (type) f->SetSurfaceType(type == 1 ? "2D" : "CUBE"); if (size == 1) f->SetSize(FMVector3(64, 32, 0)); if (size == 2) f->SetViewportRatio(0.5f); if (size == 3) f->SetSize(FMVector3(0, 0, 2)); if (mips) f->SetMipLevelCount(5); f->SetGenerateMipMaps(gen != 0);
	c.op("%sformat %d type %d size %d mips %d generate %d", s.c_str(), format, type, size, mips, gen); trip::check(c, d);
}
SPACE(formats, 2)
{
	Doc d = top(); FCDEffect* e = d->GetEffectLibrary()->AddEntity(); FCDEffectParameterSurface* f = (FCDEffectParameterSurface*) e->AddEffectParameter(FCDEffectParameter::SURFACE); f->SetReference("surf"); f->SetGenerator(); f->SetInitMethod(new FCDEffectParameterSurfaceInitAsTarget()); FCDFormatHint* h = f->AddFormatHint(); int ch = c.range(1, 7), r = c.range(1, 6), p = c.range(1, 3), o = c.choose(16); h->channels = (FCDFormatHint::channelValues) ch; h->range = (FCDFormatHint::rangeValue) r; h->precision = (FCDFormatHint::precisionValue) p; if (!c.deep && o && o != 15 && (ch > 1 || r > 1)) c.prune();
	for (int k = 0; k < 4; ++k) if (o & (1 << k)) h->options.push_back((FCDFormatHint::optionValue) k); c.op("channels %d range %d precision %d options %d", ch, r, p, o); trip::check(c, d);
}
// The common profile.
SPACE(standard, 3)
{
	Doc d = top(); FCDEffect* e = d->GetEffectLibrary()->AddEntity(); e->SetName(FC("std")); FCDEffectStandard* s = (FCDEffectStandard*) e->AddProfile(FUDaeProfileType::COMMON); int type = c.choose(4), flags = c.choose(8), mode = c.choose(2), vary = c.choose(13), v = vary ? c.range(1, 2) : 0; s->SetLightingType((FCDEffectStandard::LightingType) type); 
	FMVector4 col = v == 2 ? FMVector4(1, 1, 1, 1) : FMVector4(0.25f, 0.5f, 0.75f, 0.125f); float x = v == 2 ? 1.0f : 0.375f;
	switch (vary) { case 1: s->SetEmissionColor(col); break; case 2: s->SetEmissionFactor(x); break; case 3: s->SetDiffuseColor(col); break; case 4: s->SetAmbientColor(col); break; case 5: s->SetSpecularColor(col); break; case 6: s->SetSpecularFactor(x); break; case 7: s->SetShininess(x); break; case 8: s->SetReflectivityColor(col); break; case 9: s->SetReflectivityFactor(x); break; case 10: s->SetTranslucencyColor(col); break; case 11: s->SetTranslucencyFactor(x); break; case 12: s->SetIndexOfRefraction(x); break; }
	s->SetTransparencyMode(mode ? FCDEffectStandard::RGB_ZERO : FCDEffectStandard::A_ONE); s->SetIsEmissionFactor((flags & 1) != 0); s->SetReflective((flags & 2) != 0); s->SetRefractive((flags & 4) != 0); int ex = vary == 0 ? c.choose(2) : 0; fill(s->GetExtra(), ex); c.op("lighting %d flags %d mode %d value %d:%d extra %d", type, flags, mode, vary, v, ex); trip::check(c, d);
}
static FCDEffectParameterSampler* sampler(FCDocument* d, FCDEffectProfile* p, const char* name, int pic) { FCDEffectParameterSurface* f = (FCDEffectParameterSurface*) p->AddEffectParameter(FCDEffectParameter::SURFACE); f->SetReference((string(name) + "-surf").c_str()); f->SetGenerator(); f->AddImage(image(d, mc::strf("pic%d", pic).c_str())); f->SetInitMethod(new FCDEffectParameterSurfaceInitFrom()); FCDEffectParameterSampler* s = (FCDEffectParameterSampler*) p->AddEffectParameter(FCDEffectParameter::SAMPLER); s->SetReference(name); s->SetGenerator(); s->SetSamplerType(FCDEffectParameterSampler::SAMPLER2D); s->SetSurface(f); return s; }
SPACE(textures, 3)
{
	Doc d = top(); FCDEffect* e = d->GetEffectLibrary()->AddEntity(); FCDEffectStandard* s = (FCDEffectStandard*) e->AddProfile(FUDaeProfileType::COMMON); int type = c.choose(4), b = c.choose(FUDaeTextureChannel::COUNT), n = c.range(1, 2), b2 = c.choose(FUDaeTextureChannel::COUNT + 1) - 1, set = c.choose(3), ex = c.choose(2), own = c.choose(2), factor = b == FUDaeTextureChannel::SPECULAR_LEVEL || b2 == FUDaeTextureChannel::SPECULAR_LEVEL ? c.choose(2) : 0; bool deepOnly = (set == 1) + ex + own + (n - 1) > 2; if (deepOnly && !c.deep) c.prune(); s->SetLightingType((FCDEffectStandard::LightingType) type); s->SetReflective(true); s->SetRefractive(true); if (factor) s->SetSpecularFactor(0.5f);
	FCDEffectParameterSampler* a = sampler(d, s, "first", 0), * z = sampler(d, s, "second", 1); if (b2 == b) c.prune(); auto unused = [&](int x) { return x >= 0 && ((type == FCDEffectStandard::CONSTANT && (x == FUDaeTextureChannel::AMBIENT || x == FUDaeTextureChannel::DIFFUSE)) || ((type == FCDEffectStandard::CONSTANT || type == FCDEffectStandard::LAMBERT) && (x == FUDaeTextureChannel::SPECULAR || x == FUDaeTextureChannel::SHININESS || x == FUDaeTextureChannel::SPECULAR_LEVEL))); }; if (unused(b) || unused(b2)) c.prune();
	for (int k = 0; k < n; ++k) { FCDTexture* t = s->AddTexture(b); if (own) t->SetImage(image(d, mc::strf("own%d", k).c_str())); else t->SetSampler(k ? z : a); t->GetSet()->SetSemantic(set ? set == 1 ? "TEX0" : "UV & more" : ""); if (k == 0) fill(t->GetExtra(), ex); } if (b2 >= 0) { FCDTexture* t = s->AddTexture(b2); t->SetSampler(a); t->GetSet()->SetSemantic("CHANNEL"); }
	c.op("lighting %d bucket %d x%d also %d set %d extra %d own image %d factor %d", type, b, n, b2, set, ex, own, factor); trip::check(c, d);
}
SPACE(references, 2)
{
	// Colours and factors that are parameters of the profile.
	Doc d = top(); FCDEffect* e = d->GetEffectLibrary()->AddEntity(); FCDEffectStandard* s = (FCDEffectStandard*) e->AddProfile(FUDaeProfileType::COMMON); s->SetLightingType(c.choose(2) ? FCDEffectStandard::PHONG : FCDEffectStandard::BLINN); s->SetReflective(true); s->SetRefractive(true); int which = c.range(1, 4095); int bits = __builtin_popcount(which); if (bits > (c.deep ? 3 : 2)) c.prune(); s->SetIsEmissionFactor((which & 2) != 0);
	FCDEffectParameter* ps[] = { s->GetEmissionColorParam(), s->GetEmissionFactorParam(), s->GetDiffuseColorParam(), s->GetAmbientColorParam(), s->GetSpecularColorParam(), s->GetSpecularFactorParam(), s->GetShininessParam(), s->GetReflectivityColorParam(), s->GetReflectivityFactorParam(), s->GetTranslucencyColorParam(), s->GetTranslucencyFactorParam(), s->GetIndexOfRefractionParam() }; bool color[] = { true, false, true, true, true, false, false, true, false, true, false, false }; if ((which & 3) == 3) c.prune();
	for (int k = 0; k < 12; ++k) if (which & (1 << k)) { string n = mc::strf("param%d", k); FCDEffectParameter* g = s->AddEffectParameter(color[k] ? FCDEffectParameter::VECTOR : FCDEffectParameter::FLOAT); g->SetReference(n.c_str()); g->SetGenerator(); ps[k]->SetReference(n.c_str()); ps[k]->SetReferencer(); } c.op("referencing %x", which); trip::check(c, d);
}
// FX profiles.
SPACE(profiles, 3)
{
	Doc d = top(); FCDEffect* e = d->GetEffectLibrary()->AddEntity(); int n = c.range(1, 2); string s; for (int k = 0; k < n; ++k) { int type = c.choose(5), ex = c.choose(2); if (k && !c.deep && ex) c.prune(); FCDEffectProfile* p = e->AddProfile((FUDaeProfileType::Type) type); fill(p->GetExtra(), ex); s += mc::strf("profile %d extra %d ", type, ex); if (type == FUDaeProfileType::COMMON) continue; FCDEffectProfileFX* f = (FCDEffectProfileFX*) p; int plat = c.choose(k ? 2 : 3); if (plat) f->SetPlatform(fs(plat == 1 ? "PC-OGL" : TEXT[2])); int par = c.choose(2); if (par) { FCDEffectParameter* q = f->AddEffectParameter(FCDEffectParameter::FLOAT); q->SetReference("first"); q->SetGenerator(); } int codes = c.choose(k ? 2 : 4); s += mc::strf("platform %d parameter %d codes %d ", plat, par, codes);
		for (int i = 0; i < codes; ++i) { FCDEffectCode* o = f->AddCode(); o->SetSubId(fm::string(mc::strf("code%d-%d", k, i).c_str())); if (i == 1) { o->SetType(FCDEffectCode::INCLUDE); o->SetFilename(FC("/shaders/some file.cg")); } else o->SetCode(fs(i ? TEXT[6] : "float4 main(float a) { return a < 1 && a > 0; }")); } FCDEffectTechnique* t = f->AddTechnique(); t->SetName(fs(mc::strf("low%d", k))); t->AddPass()->SetPassName(fs(mc::strf("only%d", k)).c_str()); } c.op("%s", s.c_str()); trip::check(c, d);
}
SPACE(techniques, 3)
{
	Doc d = top(); FCDEffect* e = d->GetEffectLibrary()->AddEntity(); FCDEffectProfileFX* f = (FCDEffectProfileFX*) e->AddProfile(FUDaeProfileType::CG); FCDEffectCode* base = f->AddCode(); base->SetSubId(fm::string("base")); base->SetCode(FC("base code")); int n = c.range(1, 2); string s; for (int k = 0; k < n; ++k)
	{
		FCDEffectTechnique* t = f->AddTechnique(); t->SetName(fs(mc::strf("tech%d", k))); int codes = c.choose(k ? 2 : 3), pars = c.choose(k ? 2 : 3), passes = k ? 1 : c.range(1, 2); s += mc::strf("technique: codes %d parameters %d passes %d ", codes, pars, passes); FCDEffectCode* own = NULL; for (int i = 0; i < codes; ++i) { own = t->AddCode(); own->SetSubId(fm::string(mc::strf("code%d-%d", k, i).c_str())); if (i) { own->SetType(FCDEffectCode::INCLUDE); own->SetFilename(FC("/shaders/x.cg")); } else own->SetCode(FC("text")); } for (int i = 0; i < pars; ++i) { FCDEffectParameter* q = t->AddEffectParameter(i ? FCDEffectParameter::STRING : FCDEffectParameter::FLOAT3); q->SetReference(mc::strf("par%d", i).c_str()); q->SetGenerator(); if (i) ((FCDEffectParameterString*) q)->SetValue("x"); }
		for (int i = 0; i < passes; ++i) { FCDEffectPass* p = t->AddPass(); p->SetPassName(fs(mc::strf("pass%d", i)).c_str()); int shaders = i || k ? c.choose(2) : c.choose(3); for (int j = 0; j < shaders; ++j) { FCDEffectPassShader* x = j ? p->AddFragmentShader() : p->AddVertexShader(); x->SetName(j ? "main_frag" : "main_vert"); int extras = k || i || j || n == 2 ? 0 : c.choose(8); if (extras & 1) { x->SetCompilerTarget(FC("arbvp1")); } if (extras & 2) x->SetCompilerOptions(FC("-O3 -DX=\"1 & 2\"")); if (extras & 4) for (int y = 0; y < 2; ++y) { FCDEffectPassBind* b = x->AddBinding(); b->reference = y ? "WORLD" : "par0"; b->symbol = y ? "world_matrix" : "p"; } int code = k || i || (j && n == 2) ? 0 : c.choose(own ? 3 : 2); if (code == 1) x->SetCode(base); if (code == 2 && own) x->SetCode(own); s += mc::strf("shader %d extras %d code %d ", j, extras, code); } }
	}
	c.op("%s", s.c_str()); trip::check(c, d);
}
// Render states: the documented fields of each, one letter each. f function, t face, o stencil operation, b blend type, e equation, m material, g fog, c fog coordinate, w winding, l logic operation, p polygon mode, h shading, k color control; 1 byte, B boolean, F float, 2 3 4 vectors, I integer, J short, M matrix, S string.
static const char* STATE[] = { "fF", "bb", "bbbb", "e", "ee", "tm", "t", "f", "g", "c", "w", "k", "l", "tp", "h", "f11", "ooo", "ff11", "tooo", "t1", "1B", "14", "14", "14", "14", "1F", "1F", "1F", "1F", "13", "1F", "1I", "1I", "1I", "1I", "1I", "1I", "1B", "1B", "1B", "1B", "1B", "1B", "14", "1S", "14", "1B", "4", "4", "I", "F", "BBBB", "2", "B", "2", "F", "F", "F", "4", "4", "B", "JJ", "F", "4", "4", "4", "F", "4", "M", "3", "F", "F", "F", "F", "2", "M", "4", "I" };
static const uint32 FUNCTION[] = { 0x200, 0x201, 0x202, 0x203, 0x204, 0x205, 0x206, 0x207 }, FACE[] = { 0x404, 0x405, 0x408 }, STENCIL[] = { 0x1E00, 0, 0x1E01, 0x1E02, 0x1E03, 0x1E0A, 0x8507, 0x8508 }, BLEND[] = { 0, 1, 0x300, 0x301, 0x306, 0x307, 0x302, 0x303, 0x304, 0x305, 0x8001, 0x8002, 0x8003, 0x8004, 0x308 }, EQUATION[] = { 0x8006, 0x800A, 0x800B, 0x8007, 0x8008 }, MATERIAL[] = { 0x1600, 0x1200, 0x1201, 0x1202, 0x1602 }, FOG[] = { 0x2601, 0x800, 0x801 }, COORD[] = { 0x8451, 0x8452 }, WINDING[] = { 0x900, 0x901 }, LOGIC[] = { 0x1500, 0x1501, 0x1502, 0x1503, 0x1504, 0x1505, 0x1506, 0x1507, 0x1508, 0x1509, 0x150A, 0x150B, 0x150C, 0x150E, 0x150F }, POLYGON[] = { 0x1B00, 0x1B01, 0x1B02 }, SHADE[] = { 0x1D00, 0x1D01 }, CONTROL[] = { 0x81F9, 0x81FA };
static vector<string> values(char k)
{
	vector<string> r; auto add = [&](const void* p, size_t n) { r.push_back(string((const char*) p, n)); }; auto all = [&](const uint32* a, size_t n) { for (size_t i = 0; i < n; ++i) add(a + i, 4); };
#define ALL(A) all(A, sizeof(A) / sizeof(A[0]))
	switch (k) { case 'f': ALL(FUNCTION); break; case 't': ALL(FACE); break; case 'o': ALL(STENCIL); break; case 'b': ALL(BLEND); break; case 'e': ALL(EQUATION); break; case 'm': ALL(MATERIAL); break; case 'g': ALL(FOG); break; case 'c': ALL(COORD); break; case 'w': ALL(WINDING); break; case 'l': ALL(LOGIC); break; case 'p': ALL(POLYGON); break; case 'h': ALL(SHADE); break; case 'k': ALL(CONTROL); break;
	case '1': r = { string(1, 0), string(1, 7), string(1, (char) 255) }; break; case 'B': r = { string(1, 0), string(1, 1) }; break; case 'F': { float f[] = { 0, -2.5f, 1024 }; for (float& x : f) add(&x, 4); break; } case '2': case '3': case '4': { float f[2][4] = { { 1, 2, -3, 0.5f }, { 0, 0.25f, 0, -1 } }; for (auto& x : f) add(x, 4 * (k - '0')); break; } case 'I': { uint32 f[] = { 0, 9, 0xFFFFFFFF }; ALL(f); break; } case 'J': { uint16 f[] = { 0, 3, 0xFFFF }; for (auto& x : f) add(&x, 2); break; }
	case 'M': { FMMatrix44 m = FMMatrix44::Identity; add(&m, 64); m[3][0] = 5; m[0][1] = -0.5f; add(&m, 64); break; } case 'S': for (const char* t : { "", "REPLACE", "A & B <C>" }) { string x(255, 0); memcpy(&x[0], t, strlen(t)); r.push_back(x); } break; }
	return r;
}
SPACE(states, 2)
{
	Doc d = top(); FCDEffect* e = d->GetEffectLibrary()->AddEntity(); FCDEffectProfileFX* f = (FCDEffectProfileFX*) e->AddProfile(FUDaeProfileType::GLSL); FCDEffectTechnique* t = f->AddTechnique(); t->SetName(FC("t")); FCDEffectPass* p = t->AddPass(); p->SetPassName(FC("p")); int s = c.choose(FUDaePassState::COUNT); string fields = s < (int) (sizeof(STATE) / sizeof(STATE[0])) ? STATE[s] : "B"; FCDEffectPassState* x = p->AddRenderState((FUDaePassState::State) s);
	int which = c.choose((int) fields.size()); size_t at = 0; for (int k = 0; k < which; ++k) at += values(fields[k])[0].size(); vector<string> vs = values(fields[which]); int v = c.choose((int) vs.size()); CHECK(at + vs[v].size() <= x->GetDataSize(), "state:size", "state %d has only %zu bytes", s, x->GetDataSize()); memcpy(x->GetData() + at, vs[v].data(), vs[v].size());
	if (c.deep) { int w2 = c.choose((int) fields.size()); at = 0; for (int k = 0; k < w2; ++k) at += values(fields[k])[0].size(); vs = values(fields[w2]); int v2 = c.choose((int) vs.size()); memcpy(x->GetData() + at, vs[v2].data(), vs[v2].size()); } else { int more = c.choose(2); if (more) p->AddRenderState(FUDaePassState::DEPTH_MASK); }
	c.op("state %d field %d value %d", s, which, v); trip::check(c, d);
}
SPACE(animated, 3)
{
	Doc d = top(); FCDEffect* e = d->GetEffectLibrary()->AddEntity(); int where = c.choose(14); string s = mc::strf("value %d ", where); FCDAnimated* a = NULL; FCDEffectStandard* st = where < 11 ? (FCDEffectStandard*) e->AddProfile(FUDaeProfileType::COMMON) : NULL; if (st) { st->SetLightingType(FCDEffectStandard::PHONG); st->SetReflective(true); st->SetRefractive(true); }
	switch (where) { case 0: a = st->GetEmissionColorParam()->GetValue().GetAnimated(); break; case 1: a = st->GetDiffuseColorParam()->GetValue().GetAnimated(); break; case 2: a = st->GetAmbientColorParam()->GetValue().GetAnimated(); break; case 3: a = st->GetSpecularColorParam()->GetValue().GetAnimated(); break; case 4: a = st->GetSpecularFactorParam()->GetValue().GetAnimated(); break; case 5: a = st->GetShininessParam()->GetValue().GetAnimated(); break; case 6: a = st->GetReflectivityColorParam()->GetValue().GetAnimated(); break; case 7: a = st->GetReflectivityFactorParam()->GetValue().GetAnimated(); break; case 8: a = st->GetTranslucencyColorParam()->GetValue().GetAnimated(); break; case 9: a = st->GetTranslucencyFactorParam()->GetValue().GetAnimated(); break; case 10: a = st->GetIndexOfRefractionParam()->GetValue().GetAnimated(); break;
	default: { static const int T[] = { FCDEffectParameter::FLOAT, FCDEffectParameter::FLOAT3, FCDEffectParameter::VECTOR }; int place = c.choose(3); FCDEffectProfileFX* f = place ? (FCDEffectProfileFX*) e->AddProfile(FUDaeProfileType::CG) : NULL; FCDEffectTechnique* t = place == 2 ? f->AddTechnique() : NULL; if (t) t->SetName(FC("t")); if (t) t->AddPass(); FCDEffectParameter* p = t ? t->AddEffectParameter(T[where - 11]) : f ? f->AddEffectParameter(T[where - 11]) : e->AddEffectParameter(T[where - 11]); p->SetReference("par"); p->SetGenerator(); a = where == 11 ? ((FCDEffectParameterFloat*) p)->GetValue().GetAnimated() : where == 12 ? ((FCDEffectParameterFloat3*) p)->GetValue().GetAnimated() : ((FCDEffectParameterVector*) p)->GetValue().GetAnimated(); s += mc::strf("place %d ", place); } }
	int n = (int) a->GetValueCount(), which = n > 1 ? c.choose(n + 1) : 0; if (which == n) for (int k = 0; k < n; ++k) animate(a, k, d); else animate(a, which, d); c.op("%scomponents %d of %d", s.c_str(), which, n); trip::check(c, d, false);
}
// Physics.
// Choices of which at most so many differ from the first alternative.
struct Budget { mc::Ctx& c; int left; int operator()(int n) { int v = left > 0 ? c.choose(n) : 0; if (v) --left; return v; } };
static FCDPhysicsMaterial* stuff(FCDPhysicsMaterial* m, int v = 1) { static const float X[][3] = { { 0, 0, 0 }, { 0.5f, 0.25f, 0.75f }, { 1, 0, 100 } }; m->SetStaticFriction(X[v][0]); m->SetDynamicFriction(X[v][1]); m->SetRestitution(X[v][2]); return m; }
static FCDPhysicsAnalyticalGeometry* analytical(FCDPhysicsShape* s, int kind, int v)
{
	FCDPhysicsAnalyticalGeometry* g = s->CreateAnalyticalGeometry((FCDPhysicsAnalyticalGeometry::GeomType) kind); float a = v ? 2.0f : 1.0f, b = v ? 0.5f : 1.0f, h = v ? 3.0f : 1.0f;
	switch (kind) { case FCDPhysicsAnalyticalGeometry::BOX: ((FCDPASBox*) g)->halfExtents = FMVector3(a, b, h); break; case FCDPhysicsAnalyticalGeometry::PLANE: ((FCDPASPlane*) g)->normal = v ? FMVector3(1, 0, 0) : FMVector3(0, 0.75f, 0.5f); ((FCDPASPlane*) g)->d = h + 1; break; case FCDPhysicsAnalyticalGeometry::SPHERE: ((FCDPASSphere*) g)->radius = h; break; case FCDPhysicsAnalyticalGeometry::TAPERED_CYLINDER: ((FCDPASTaperedCylinder*) g)->radius2 = FMVector2(a + 3, b + 3); /* fall through */ case FCDPhysicsAnalyticalGeometry::CYLINDER: ((FCDPASCylinder*) g)->height = h; ((FCDPASCylinder*) g)->radius = FMVector2(a, b); break; case FCDPhysicsAnalyticalGeometry::TAPERED_CAPSULE: ((FCDPASTaperedCapsule*) g)->radius2 = FMVector2(a + 3, b + 3); /* fall through */ case FCDPhysicsAnalyticalGeometry::CAPSULE: ((FCDPASCapsule*) g)->height = h; ((FCDPASCapsule*) g)->radius = FMVector2(a, b); break; }
	return g;
}
static FCDGeometry* box(FCDocument* d) { FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); g->SetName(FC("box")); FCDGeometryMesh* m = g->CreateMesh(); FCDGeometrySource* s = m->AddVertexSource(FUDaeGeometryInput::POSITION); float p[] = { 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 3 }; FloatList l(p, 12); s->SetData(l, 3); FCDGeometryPolygons* q = m->AddPolygons(); q->AddFace(3); uint32 x[] = { 0, 1, 2 }; FCDGeometryPolygonsInput* in = q->FindInput(s); in->SetIndices(x, 3); m->Recalculate(); m->SetConvex(false); return g; }
static void transforms(mc::Ctx& c, int most, string& s, std::function<FCDTransform*(FCDTransform::Type)> add)
{
	int n = c.range(0, most); for (int k = 0; k < n; ++k) { bool r = c.flag(); s += r ? "rotate " : "translate "; FCDTransform* t = add(r ? FCDTransform::ROTATION : FCDTransform::TRANSLATION); if (r) ((FCDTRotation*) t)->SetRotation(k ? FMVector3::YAxis : FMVector3::XAxis, 30.0f * (k + 1)); else ((FCDTTranslation*) t)->SetTranslation((float) k + 1, -2, 0.5f); }
}
static FCDPhysicsShape* ball(FCDPhysicsRigidBodyParameters* p, float mass = 2) { FCDPhysicsShape* s = p->AddPhysicsShape(); analytical(s, FCDPhysicsAnalyticalGeometry::SPHERE, 0); s->SetMass(mass); s->SetDensity(1); return s; }
static FCDPhysicsRigidBody* makeBody(FCDPhysicsModel* m, const char* sid) { FCDPhysicsRigidBody* b = m->AddRigidBody(); b->SetSubId(sid); b->GetParameters()->SetMass(4); ball(b->GetParameters()); return b; }
SPACE(physicsMaterials, 3)
{
	Doc d = top(); int name = c.choose((int) TEXT.size() - 1), v = c.choose(3), ex = c.choose(2), id = c.choose(2), note = c.choose(2), two = c.choose(2); FCDPhysicsMaterial* m = stuff(d->GetPhysicsMaterialLibrary()->AddEntity(), v); m->SetName(fs(TEXT[name])); fill(m->GetExtra(), ex); if (id) m->SetDaeId(fm::string("chosen")); if (note) m->SetNote(FC("a note")); if (two) stuff(d->GetPhysicsMaterialLibrary()->AddEntity()); c.op("name %d values %d extra %d id %d note %d two %d", name, v, ex, id, note, two); trip::check(c, d);
}
SPACE(shapes, 3)
{
	Doc d = top(); FCDPhysicsModel* m = d->GetPhysicsModelLibrary()->AddEntity(); m->SetName(FC("model")); FCDPhysicsRigidBody* b = m->AddRigidBody(); b->SetSubId("body"); b->SetName(FC("body")); FCDPhysicsMaterial* lib = stuff(d->GetPhysicsMaterialLibrary()->AddEntity(), 2); int n = c.range(1, 2); string s; bool same = true;
	for (int k = 0; k < n; ++k)
	{
		Budget o = { c, c.deep ? 4 : n == 2 ? 1 : 2 }; int kind = c.choose(9), weight = o(6), v = kind == 8 ? 0 : o(2), hollow = o(2), mat = o(4); FCDPhysicsShape* p = b->GetParameters()->AddPhysicsShape(); if (kind < 7) analytical(p, kind, v); else p->CreateGeometryInstance(box(d), kind == 8); s += mc::strf("shape: kind %d values %d weight %d hollow %d material %d ", kind, v, weight, hollow, mat);
		switch (weight) { case 0: p->SetMass(3); p->SetDensity(0.5f); break; case 1: p->SetMass(3); same = false; break; case 2: p->SetDensity(0.5f); break; case 3: p->SetMass(3); p->SetDensity(0.25f); p->SetDensityMoreAccurate(true); break; case 4: p->SetMass(0); p->SetDensity(2); break; case 5: p->SetMass(0.125f); p->SetDensity(0); break; }
		p->SetHollow(hollow != 0); if (mat == 1) stuff(p->AddOwnPhysicsMaterial()); if (mat == 2) p->SetPhysicsMaterial(lib); if (mat == 3) { stuff(p->AddOwnPhysicsMaterial())->SetName(FC("own one")); fill(p->GetPhysicsMaterial()->GetExtra(), 1); } transforms(c, o.left == 0 || k ? 0 : n == 2 ? 1 : o.left, s, [&](FCDTransform::Type t) { return p->AddTransform(t); });
	}
	c.op("%s", s.c_str()); trip::check(c, d, same);
}
SPACE(bodies, 3)
{
	Doc d = top(); FCDPhysicsModel* m = d->GetPhysicsModelLibrary()->AddEntity(); FCDPhysicsMaterial* lib = stuff(d->GetPhysicsMaterialLibrary()->AddEntity(), 2); int n = c.range(1, 2), mex = c.choose(2); string s = mc::strf("model extra %d ", mex); fill(m->GetExtra(), mex);
	for (int k = 0; k < n; ++k)
	{
		Budget o = { c, c.deep ? 4 : k ? 1 : n == 2 ? 2 : 3 }; int mat = o(4), inertia = o(3), mass = o(3), dyn = o(2), pos = o(2), rot = o(3), ex = o(2), name = k ? 0 : o((int) TEXT.size() - 1), shapes = k ? 0 : o(3), note = k ? 0 : o(2); FCDPhysicsRigidBody* b = m->AddRigidBody(); b->SetSubId(k ? "second" : "first"); b->SetName(fs(k ? "second" : TEXT[name])); fill(b->GetExtra(), ex); if (note) b->SetNote(FC("a note")); FCDPhysicsRigidBodyParameters* p = b->GetParameters(); s += mc::strf("body: name %d extra %d dynamic %d mass %d position %d rotation %d inertia %d material %d shapes %d ", name, ex, dyn, mass, pos, rot, inertia, mat, shapes);
		p->SetDynamic(dyn == 0); p->SetMass(mass ? mass == 1 ? 7.5f : 0.0f : 1.0f); if (pos) p->SetMassFrameTranslate(FMVector3(1, -2, 0.25f)); if (rot) p->SetMassFrameOrientation(FMAngleAxis(rot == 1 ? FMVector3::YAxis : FMVector3(0.6f, 0, 0.8f), 45)); if (inertia) p->SetInertia(inertia == 1 ? FMVector3(1, 2, 3) : FMVector3::Zero); if (mat == 1) stuff(p->AddOwnPhysicsMaterial()); if (mat == 2) p->SetPhysicsMaterial(lib); if (mat == 3) stuff(p->AddOwnPhysicsMaterial())->SetName(FC("own one")); for (int i = 0; i < shapes; ++i) ball(p, i + 1.0f);
	}
	c.op("%s", s.c_str()); trip::check(c, d);
}
SPACE(constraints, 3)
{
	Doc d = top(); FCDSceneNode* node = d->AddVisualScene()->AddChildNode(); node->SetName(FC("some node")); FCDPhysicsModel* m = d->GetPhysicsModelLibrary()->AddEntity(); FCDPhysicsRigidBody* one = makeBody(m, "one"), * two = makeBody(m, "two"); int n = c.range(1, 2); string s;
	for (int k = 0; k < n; ++k)
	{
		Budget o = { c, c.deep ? 5 : k ? 1 : n == 2 ? 2 : 3 }; int ref = o(3), tar = o(3), on = o(2), inter = o(2), limits = o(4), spring = o(4), ex = o(2), name = k ? 0 : o(2); FCDPhysicsRigidConstraint* r = m->AddRigidConstraint(); r->SetSubId(mc::strf("joint%d", k).c_str()); if (name) r->SetName(FC("the joint")); fill(r->GetExtra(), ex); s += mc::strf("constraint: reference %d target %d enabled %d interpenetrate %d limits %d spring %d extra %d name %d ", ref, tar, on, inter, limits, spring, ex, name);
		if (ref == 2) r->SetReferenceNode(node); else r->SetReferenceRigidBody(ref ? two : one); if (tar == 2) r->SetTargetNode(node); else r->SetTargetRigidBody(tar ? two : one); int most = c.deep ? 3 : n == 2 ? (o.left == 2 ? 1 : 0) : o.left > 2 ? 2 : o.left > 0 ? 1 : 0; transforms(c, most, s, [&](FCDTransform::Type t) { return r->AddTransformRef(t); }); s += "/ "; transforms(c, k ? 0 : c.deep ? 2 : most, s, [&](FCDTransform::Type t) { return r->AddTransformTar(t); });
		r->SetEnabled(on == 0); r->SetInterpenetrate(inter != 0); if (limits & 1) { r->SetLimitsLinearMin(FMVector3(-1, -2, -3)); r->SetLimitsLinearMax(FMVector3(1, 2, 4)); } if (limits & 2) { r->SetLimitsSCTMin(FMVector3(-10, -20, -30)); r->SetLimitsSCTMax(FMVector3(10, 20, 40)); } if (spring & 1) { r->SetSpringLinearStiffness(5); r->SetSpringLinearDamping(0.5f); r->SetSpringLinearTargetValue(-1); } if (spring & 2) { r->SetSpringAngularStiffness(0); r->SetSpringAngularDamping(0.25f); r->SetSpringAngularTargetValue(90); }
	}
	c.op("%s", s.c_str()); trip::check(c, d);
}
// What a model instance holds.
static void fillInstance(mc::Ctx& c, FCDocument* d, FCDPhysicsModelInstance* i, FCDPhysicsModel* m, FCDSceneNode* node, string& s, bool small)
{
	int order = small ? 0 : c.choose(3), bodies = c.choose(small ? 2 : 3), joints = c.choose(2), fields = c.choose(2), ex = small ? 0 : c.choose(2), name = small ? 0 : c.choose(2); s += mc::strf("instance: order %d bodies %d constraints %d fields %d extra %d name %d ", order, bodies, joints, fields, ex, name); fill(i->GetExtra(), ex); if (name) i->SetName(FC("inst")); if (name) i->SetWantedSubId("instance-sid");
	for (int step = 0; step < 3; ++step) switch ((step + order) % 3)
	{
	case 0: for (int k = 0; k < bodies; ++k) { FCDPhysicsRigidBodyInstance* b = i->AddRigidBodyInstance(m->GetRigidBody(k)); b->SetTargetNode(node); int how = small || k ? 0 : c.choose(6); s += mc::strf("body %d ", how); FCDPhysicsRigidBodyParameters* p = b->GetParameters(); if (how == 1) { b->SetVelocity(FMVector3(1, 0, -2)); b->SetAngularVelocity(FMVector3(0, 90, 0)); } if (how == 2) { p->SetMass(9); p->SetDynamic(false); p->SetInertia(FMVector3(3, 2, 1)); } if (how == 3) { p->SetMassFrameTranslate(FMVector3(0, 5, 0)); p->SetMassFrameOrientation(FMAngleAxis(FMVector3::ZAxis, 15)); ball(p, 3); } if (how == 4) stuff(p->AddOwnPhysicsMaterial()); if (how == 5) { p->SetPhysicsMaterial(d->GetPhysicsMaterialLibrary()->GetEntity(0)); fill(b->GetExtra(), 2); b->SetName(FC("body inst")); } } break;
	case 1: for (int k = 0; k < joints; ++k) { FCDPhysicsRigidConstraintInstance* r = i->AddRigidConstraintInstance(m->GetRigidConstraint(k)); int how = small ? 0 : c.choose(2); if (how) fill(r->GetExtra(), 1); s += mc::strf("constraint %d ", how); } break;
	case 2: for (int k = 0; k < fields; ++k) { FCDPhysicsForceFieldInstance* f = i->AddForceFieldInstance(d->GetForceFieldLibrary()->GetEntity(0)); int how = small ? 0 : c.choose(2); if (how) { fill(f->GetExtra(), 1); f->SetName(FC("wind inst")); } s += mc::strf("field %d ", how); } break;
	}
}
static FCDPhysicsModel* prepare(FCDocument* d, FCDSceneNode*& node) { node = d->AddVisualScene()->AddChildNode(); node->SetName(FC("some node")); stuff(d->GetPhysicsMaterialLibrary()->AddEntity()); d->GetForceFieldLibrary()->AddEntity()->SetName(FC("wind")); FCDPhysicsModel* m = d->GetPhysicsModelLibrary()->AddEntity(); m->SetName(FC("car")); FCDPhysicsRigidBody* a = makeBody(m, "one"), * b = makeBody(m, "two"); FCDPhysicsRigidConstraint* r = m->AddRigidConstraint(); r->SetSubId("joint"); r->SetReferenceRigidBody(a); r->SetTargetRigidBody(b); return m; }
SPACE(models, 3)
{
	// Models that instantiate other models.
	Doc d = top(); FCDSceneNode* node; FCDPhysicsModel* m = prepare(d, node), * p = d->GetPhysicsModelLibrary()->AddEntity(), * z = d->GetPhysicsModelLibrary()->AddEntity(); p->SetName(FC("fleet")); z->SetName(FC("last")); makeBody(z, "zbody"); int who = c.choose(3), n = c.range(1, 2); string s = mc::strf("in %d: ", who); FCDPhysicsModel* holder = who == 0 ? p : who == 1 ? z : m; for (int k = 0; k < n; ++k) { FCDPhysicsModel* of = who == 2 ? z : k && c.flag() ? (who == 0 ? z : p) : m; FCDPhysicsModelInstance* i = holder->AddPhysicsModelInstance(of); if (of == m) fillInstance(c, d, i, m, node, s, k || n == 2); else { s += "other "; if (of == z && c.flag()) { i->AddRigidBodyInstance(z->GetRigidBody(0))->SetTargetNode(node); s += "body "; } } } if (who == 0 && c.flag()) { p->AddRigidBody()->SetSubId("own"); s += "own body"; }
	c.op("%s", s.c_str()); trip::check(c, d);
}
SPACE(physicsScenes, 3)
{
	Doc d = top(); FCDSceneNode* node; FCDPhysicsModel* m = prepare(d, node); int n = c.range(1, 2), inst = c.choose(n + 2); string s; FCDPhysicsScene* all[2];
	for (int k = 0; k < n; ++k) { FCDPhysicsScene* p = all[k] = d->GetPhysicsSceneLibrary()->AddEntity(); p->SetName(fs(k ? "second" : "first & only")); Budget o = { c, c.deep ? 4 : k || n == 2 ? 1 : 2 }; int models = k ? o(2) : 1 + o(2), g = o(3), step = o(2), fields = o(3), ex = o(2); s += mc::strf("scene: gravity %d step %d fields %d models %d extra %d ", g, step, fields, models, ex); if (g) p->SetGravity(g == 1 ? FMVector3(0, 0, -10) : FMVector3::Zero); if (step) p->SetTimestep(0.0625f); fill(p->GetExtra(), ex); for (int i = 0; i < fields; ++i) { FCDPhysicsForceFieldInstance* f = p->AddForceFieldInstance(d->GetForceFieldLibrary()->GetEntity(0)); if (i) { f->SetName(FC("named")); fill(f->GetExtra(), 1); } } for (int i = 0; i < models; ++i) fillInstance(c, d, p->AddPhysicsModelInstance(m), m, node, s, n == 2 || models == 2 || (!c.deep && o.left < 2)); }
	for (int k = 0; k < n; ++k) if (inst == k + 1 || inst == n + 1) d->AddPhysicsSceneInstance(all[k]); c.op("instances %d %s", inst, s.c_str()); trip::check(c, d);
}
static void tree(mc::Ctx& c, FCDExtra* e, string& s)
{
	int types = c.choose(3); for (int t = 0; t < types; ++t) { FCDEType* y = t ? e->AddType("special") : e->GetDefaultType(); int techs = c.range(1, 2); for (int k = 0; k < techs; ++k) { FCDETechnique* h = y->AddTechnique(k ? "OTHER" : "TEST"); int shape = t || k ? 1 : c.choose(4); s += mc::strf("type %d technique %d shape %d ", t, k, shape); if (shape == 0) h->AddChildNode("empty"); if (shape == 1) h->AddChildNode("leaf")->SetContent(fs(TEXT[2])); if (shape == 2) { FCDENode* n = h->AddChildNode("deep"); n->AddAttribute("a", FC("1 & 2")); FCDENode* x = n->AddChildNode("inner"); x->SetContent(FC("text")); x->AddAttribute("b", FC("")); n->AddChildNode("inner"); } if (shape == 3) for (int i = 0; i < 3; ++i) h->AddParameter("param", (float) i); } }
}
SPACE(fields, 3)
{
	Doc d = top(); FCDForceField* f = d->GetForceFieldLibrary()->AddEntity(); string s; int name = c.choose((int) TEXT.size() - 1), inst = c.choose(3); f->SetName(fs(TEXT[name])); int techs = c.choose(3); for (int k = 0; k < techs; ++k) { FCDETechnique* h = f->GetInformation()->GetDefaultType()->AddTechnique(k ? "OTHER" : "TEST"); int shape = c.choose(3); s += mc::strf("technique %d shape %d ", k, shape); if (shape == 0) h->AddChildNode("leaf")->SetContent(fs(TEXT[2])); if (shape == 1) { FCDENode* n = h->AddChildNode("deep"); n->AddAttribute("a", FC("1 & 2")); n->AddChildNode("inner")->SetContent(FC("text")); } if (shape == 2) for (int i = 0; i < 2; ++i) h->AddParameter("param", (float) i); } tree(c, f->GetExtra(), s); if (inst) { FCDSceneNode* n = d->AddVisualScene()->AddChildNode(); for (int k = 0; k < inst; ++k) { FCDEntityInstance* i = n->AddInstance(f); if (k) { i->SetName(FC("second one")); fill(i->GetExtra(), 1); } } } c.op("name %d instances %d %s", name, inst, s.c_str()); trip::check(c, d);
}
SPACE(emitters, 3)
{
	Doc d = top(); FCDEmitter* f = d->GetEmitterLibrary()->AddEntity(); string s; int name = c.choose((int) TEXT.size() - 1), inst = c.choose(3), note = c.choose(2), two = c.choose(2); f->SetName(fs(TEXT[name])); if (note) f->SetNote(FC("a note")); if (two) d->GetEmitterLibrary()->AddEntity(); tree(c, f->GetExtra(), s); if (inst) { FCDSceneNode* n = d->AddVisualScene()->AddChildNode(); for (int k = 0; k < inst; ++k) { FCDEntityInstance* i = n->AddInstance(f); if (k) { i->SetName(FC("second one")); fill(i->GetExtra(), 1); } } } c.op("name %d instances %d note %d two %d %s", name, inst, note, two, s.c_str()); trip::check(c, d);
}
SPACE(physicsAnimated, 3)
{
	Doc d = top(); FCDSceneNode* node; FCDPhysicsModel* m = prepare(d, node); int where = c.choose(16); FCDPhysicsScene* scene = d->GetPhysicsSceneLibrary()->AddEntity(); FCDPhysicsRigidBodyInstance* i = where >= 7 && where < 14 ? scene->AddPhysicsModelInstance(m)->AddRigidBodyInstance(m->GetRigidBody(1)) : NULL; if (i) i->SetTargetNode(node); FCDPhysicsRigidBodyParameters* p = i ? i->GetParameters() : m->GetRigidBody(c.choose(2))->GetParameters(); p->SetInertia(FMVector3(1, 2, 3)); FCDAnimated* a = NULL; switch (i ? where - 7 : where) { case 0: a = p->GetDynamic().GetAnimated(); break; case 1: a = p->GetMass().GetAnimated(); break; case 2: a = p->GetInertia().GetAnimated(); break; case 3: a = p->GetMassFrameTranslate().GetAnimated(); break; case 4: a = p->GetMassFrameOrientation().GetAnimated(); break; case 5: a = i ? i->GetVelocity().GetAnimated() : NULL; break; case 6: a = i ? i->GetAngularVelocity().GetAnimated() : NULL; break; case 14: a = m->GetRigidConstraint(0)->GetEnabled().GetAnimated(); break; case 15: a = m->GetRigidConstraint(0)->GetInterpenetrate().GetAnimated(); break; }
	if (!a) c.prune(); int n = (int) a->GetValueCount(), which = n > 1 ? c.choose(n + 1) : 0; if (which == n) for (int k = 0; k < n; ++k) animate(a, k, d); else animate(a, which, d); c.op("value %d component %d of %d", where, which, n); trip::check(c, d, false);
}
