// A canonical text of everything a document holds, read through public getters only.
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>
#include "FCollada.h"
#include "FUtils/FUDaeEnum.h"
#include "FUtils/FUFileManager.h"
#include "FUtils/FUDateTime.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDocumentTools.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDAsset.h"
#include "FCDocument/FCDExtra.h"
#include "FCDocument/FCDEntityReference.h"
#include "FCDocument/FCDPlaceHolder.h"
#include "FCDocument/FCDExternalReferenceManager.h"
#include "FCDocument/FCDAnimated.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationChannel.h"
#include "FCDocument/FCDAnimationClip.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDAnimationKey.h"
#include "FCDocument/FCDParameterAnimatable.h"
#include "FCDocument/FCDCamera.h"
#include "FCDocument/FCDLight.h"
#include "FCDocument/FCDController.h"
#include "FCDocument/FCDControllerInstance.h"
#include "FCDocument/FCDSkinController.h"
#include "FCDocument/FCDMorphController.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryInstance.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometryPolygons.h"
#include "FCDocument/FCDGeometryPolygonsInput.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDGeometrySpline.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDTransform.h"
#include "FCDocument/FCDMaterial.h"
#include "FCDocument/FCDMaterialInstance.h"
#include "FCDocument/FCDEffect.h"
#include "FCDocument/FCDEffectCode.h"
#include "FCDocument/FCDEffectParameter.h"
#include "FCDocument/FCDEffectParameterSampler.h"
#include "FCDocument/FCDEffectParameterSurface.h"
#include "FCDocument/FCDEffectPass.h"
#include "FCDocument/FCDEffectPassShader.h"
#include "FCDocument/FCDEffectPassState.h"
#include "FCDocument/FCDEffectProfile.h"
#include "FCDocument/FCDEffectProfileFX.h"
#include "FCDocument/FCDEffectStandard.h"
#include "FCDocument/FCDEffectTechnique.h"
#include "FCDocument/FCDTexture.h"
#include "FCDocument/FCDImage.h"
#include "FCDocument/FCDEmitter.h"
#include "FCDocument/FCDForceField.h"
#include "FCDocument/FCDPhysicsAnalyticalGeometry.h"
#include "FCDocument/FCDPhysicsForceFieldInstance.h"
#include "FCDocument/FCDPhysicsMaterial.h"
#include "FCDocument/FCDPhysicsModel.h"
#include "FCDocument/FCDPhysicsModelInstance.h"
#include "FCDocument/FCDPhysicsRigidBody.h"
#include "FCDocument/FCDPhysicsRigidBodyInstance.h"
#include "FCDocument/FCDPhysicsRigidBodyParameters.h"
#include "FCDocument/FCDPhysicsRigidConstraint.h"
#include "FCDocument/FCDPhysicsRigidConstraintInstance.h"
#include "FCDocument/FCDPhysicsScene.h"
#include "FCDocument/FCDPhysicsShape.h"
#include "mc.h"
struct Dump
{
	std::string o; int depth = 0; bool rel = false, kids = true, joints = true; std::map<const void*, std::string> own; const FCDocument* doc = NULL;
	std::map<const void*, std::string> label; std::set<const void*> done, used; std::vector<std::string> at;
	struct In { Dump& d; In(Dump& d, const char* k, const std::string& v = "") : d(d) { d.line(k, v); ++d.depth; d.at.push_back(std::string(k) + (v.empty() ? "" : ":" + v)); } ~In() { --d.depth; d.at.pop_back(); } };
	static std::string F(float f) { char b[40]; snprintf(b, 40, "%.9g", f == 0 ? 0.0f : f); return b; }
	static std::string N(size_t n) { return std::to_string(n); }
	static std::string S(const char* s) { std::string r = "'"; for (; *s; ++s) if (*s == '\n') r += "\\n"; else r += *s; return r + "'"; }
	static std::string S(const fm::string& s) { return S(s.c_str()); }
	static std::string V(const FMVector2& v) { return F(v.x) + " " + F(v.y); }
	static std::string V(const FMVector3& v) { return F(v.x) + " " + F(v.y) + " " + F(v.z); }
	static std::string V(const FMVector4& v) { return F(v.x) + " " + F(v.y) + " " + F(v.z) + " " + F(v.w); }
	static std::string V(const FMMatrix44& m) { std::string r; for (int i = 0; i < 16; ++i) r += F(m.m[i % 4][i / 4]) + " "; return r; }
	static std::string V(const FMAngleAxis& a) { return V(a.axis) + " " + F(a.angle); }
	static std::string V(const FMLookAt& a) { return V(a.position) + " / " + V(a.target) + " / " + V(a.up); }
	static std::string V(const FMSkew& a) { return V(a.rotateAxis) + " / " + V(a.aroundAxis) + " / " + F(a.angle); }
	static std::string V(float f) { return F(f); }
	static std::string V(bool b) { return b ? "yes" : "no"; }
	static std::string V(int32 b) { return std::to_string(b); }
	static std::string V(uint32 b) { return std::to_string(b); }
	void line(const char* k, const std::string& v) { o.append(depth, ' '); o += k; o += ' '; o += v; o += '\n'; }
	void opt(const char* k, const std::string& v) { if (v != "''") line(k, v); }
	std::string where() { std::string r; for (auto& x : at) r += x + "/"; return r; }
	// Relative to a root: what belongs to it is known by its place, and animation is left out.
	void mine(const void* e) { if (rel && !own.count(e)) own[e] = "#" + N(own.size()); }
	std::string idOf(const FCDObjectWithId* e) { if (rel && own.count(e)) return own[e]; return e ? S(const_cast<FCDObjectWithId*>(e)->GetDaeId()) : "none"; }
	static std::string uri(const FUUri& u) { return S(u.GetAbsoluteUri()); }
	// Curves and animated values.
	void curve(const FCDAnimationCurve* c)
	{
		if (label.find(c) == label.end()) label[c] = where();
		if (!done.insert(c).second) { line("curve", "again " + label[c]); return; }
		In in(*this, "curve"); line("before", V((int32) c->GetPreInfinity())); line("after", V((int32) c->GetPostInfinity()));
		if (c->HasDriver()) { const FCDAnimated* d; int32 i; c->GetDriver(d, i); line("driver", label[d] + " " + V(i)); }
		for (size_t i = 0; i < c->GetKeyCount(); ++i) { const FCDAnimationKey* k = c->GetKey(i); std::string s = F(k->input) + " " + F(k->output) + " " + V((int32) k->interpolation); if (k->interpolation == FUDaeInterpolation::BEZIER) { const FCDAnimationKeyBezier* b = (const FCDAnimationKeyBezier*) k; s += " in " + V(b->inTangent) + " out " + V(b->outTangent); } else if (k->interpolation == FUDaeInterpolation::TCB) { const FCDAnimationKeyTCB* t = (const FCDAnimationKeyTCB*) k; s += " tcb " + F(t->tension) + " " + F(t->continuity) + " " + F(t->bias) + " " + F(t->easeIn) + " " + F(t->easeOut); } line("key", s); }
	}
	void animated(const FCDAnimated* a)
	{
		if (!a || rel) return; if (label.find(a) == label.end()) label[a] = where(); if (!a->HasCurve()) return; In in(*this, "animated"); 
		for (size_t i = 0; i < a->GetValueCount(); ++i) for (size_t j = 0; j < a->GetCurveCount(i); ++j) { In in2(*this, "component", N(i)); line("name", S(a->GetQualifier(i))); curve(a->GetCurve(i, j)); }
	}
	template <class T, int Q> void param(const char* k, const FCDParameterAnimatableT<T, Q>& p) { In in(*this, k, ""); line("value", V(*p)); animated(p.GetAnimated()); }
	// Extra trees, assets, entities.
	void extraNode(const FCDENode* n)
	{
		for (size_t i = 0; i < n->GetAttributeCount(); ++i) line("attribute", S(n->GetAttribute(i)->GetName()) + "=" + S(n->GetAttribute(i)->GetValue())); if (n->GetChildNodeCount() == 0) line("content", S(n->GetContent())); animated(n->GetAnimated());
		for (size_t i = 0; i < n->GetChildNodeCount(); ++i) { In in(*this, "node", S(n->GetChildNode(i)->GetName())); extraNode(n->GetChildNode(i)); }
	}
	void extra(const FCDExtra* e)
	{
		if (!e) return; for (size_t i = 0; i < e->GetTypeCount(); ++i) { const FCDEType* t = e->GetType(i); if (!strcmp(t->GetName().c_str(), "AnimTargets")) continue; size_t real = 0; auto bookkeeping = [](const FCDETechnique* k) { std::string p = k->GetProfile(); return (p == "FCOLLADA" || p == "MAYA" || p == "MAX3D") && k->GetChildNodeCount() == 0; }; for (size_t j = 0; j < t->GetTechniqueCount(); ++j) real += !bookkeeping(t->GetTechnique(j)); if (real == 0 && (t->GetName().empty() || t->GetTechniqueCount() > 0)) continue; In in(*this, "extra", S(t->GetName())); for (size_t j = 0; j < t->GetTechniqueCount(); ++j) { if (bookkeeping(t->GetTechnique(j))) continue; In in2(*this, "technique", S(t->GetTechnique(j)->GetProfile())); extraNode(t->GetTechnique(j)); } }
	}
	void asset(const FCDAsset* a)
	{
		if (!a) return; In in(*this, "asset"); for (size_t i = 0; i < a->GetContributorCount(); ++i) { const FCDAssetContributor* k = a->GetContributor(i); if (k->IsEmpty()) continue; In in2(*this, "contributor"); opt("author", S(k->GetAuthor())); opt("tool", S(k->GetAuthoringTool())); opt("comments", S(k->GetComments())); opt("copyright", S(k->GetCopyright())); opt("source", S(k->GetSourceData())); }
		line("created", S(FUStringConversion::ToString(a->GetCreationDateTime()))); opt("keywords", S(a->GetKeywords())); opt("revision", S(a->GetRevision())); opt("subject", S(a->GetSubject())); opt("title", S(a->GetTitle())); if (a->GetHasUpAxisFlag()) line("up", V(a->GetUpAxis())); if (a->GetHasUnitsFlag()) line("unit", S(a->GetUnitName()) + " " + F(a->GetUnitConversionFactor()));
	}
	void entity(const FCDEntity* e)
	{
		if (rel ? !e->GetName().empty() : !e->GetName().empty() && S(e->GetName()) != S(FCDEntity::CleanName(const_cast<FCDEntity*>(e)->GetDaeId().c_str()))) line("name", S(e->GetName())); if (e->HasNote()) line("note", S(e->GetNote())); asset(e->GetAsset()); extra(e->GetExtra());
	}
	std::string subId(const fm::string& s) { return S(s); }
	// Scenes.
	void transform(const FCDTransform* t)
	{
		In in(*this, "transform", V((int32) t->GetType())); opt("sid", S(*t->GetSubId()));
		switch (t->GetType()) { case FCDTransform::TRANSLATION: param("translate", ((const FCDTTranslation*) t)->GetTranslation()); break; case FCDTransform::ROTATION: param("rotate", ((const FCDTRotation*) t)->GetAngleAxis()); break; case FCDTransform::SCALE: param("scale", ((const FCDTScale*) t)->GetScale()); break; case FCDTransform::MATRIX: param("matrix", ((const FCDTMatrix*) t)->GetTransform()); break; case FCDTransform::LOOKAT: param("lookat", ((const FCDTLookAt*) t)->GetLookAt()); break; case FCDTransform::SKEW: param("skew", ((const FCDTSkew*) t)->GetSkew()); break; default: break; }
	}
	void effectParameter(const FCDEffectParameter* p);
	void materialInstance(const FCDMaterialInstance* m)
	{
		In in(*this, "material", S(m->GetSemantic())); target(m); for (size_t i = 0; i < m->GetBindingCount(); ++i) line("bind", S(*m->GetBinding(i)->semantic) + " to " + S(*m->GetBinding(i)->target)); for (size_t i = 0; i < m->GetVertexInputBindingCount(); ++i) { const FCDMaterialInstanceBindVertexInput* b = m->GetVertexInputBinding(i); line("bindVertex", S(*b->semantic) + " to " + V((int32) b->GetInputSemantic()) + " " + V((int32) *b->inputSet)); }
	}
	void target(const FCDEntityInstance* i) { const FCDEntity* e = i->GetEntity(); line("entity", e && (rel || e->GetDocument() == i->GetDocument()) ? idOf(e) : (e ? "external " : "") + uri(i->GetEntityUri())); opt("name", S(i->GetName())); opt("sid", S(i->GetWantedSubId())); extra(i->GetExtra()); }
	void instanceBody(const FCDEntityInstance* i)
	{
		target(i);
		if (i->IsType(FCDGeometryInstance::GetClassType())) { const FCDGeometryInstance* g = (const FCDGeometryInstance*) i; for (size_t k = 0; k < g->GetMaterialInstanceCount(); ++k) materialInstance(g->GetMaterialInstance(k)); for (size_t k = 0; k < g->GetEffectParameterCount(); ++k) effectParameter(g->GetEffectParameter(k)); }
		if (i->IsType(FCDControllerInstance::GetClassType())) { const FCDControllerInstance* k = (const FCDControllerInstance*) i; for (const FUUri& u : vec(k->GetSkeletonRoots())) line("skeleton", S(u.GetFragment())); for (size_t j = 0; joints && j < k->GetJointCount(); ++j) line("joint", idOf(k->GetJoint(j))); }
	}
	template <class L> static std::vector<FUUri> vec(const L& l) { std::vector<FUUri> r; for (size_t i = 0; i < l.size(); ++i) r.push_back(l[i]); return r; }
	void instance(const FCDEntityInstance* i) { In in(*this, "instance", V((int32) i->GetType()) + " " + V((int32) i->GetEntityType())); instanceBody(i); }
	void node(const FCDSceneNode* n)
	{
				In in(*this, "scenenode", rel ? "" : idOf(n)); if (!done.insert(n).second && !rel) { line("again", ""); return; } entity(n); opt("sid", S(n->GetSubId())); line("joint", V(n->GetJointFlag())); param("visible", n->GetVisibility());
		for (size_t i = 0; i < n->GetTransformCount(); ++i) transform(n->GetTransform(i)); for (int moved = 0; moved < 2; ++moved) for (size_t i = 0; i < n->GetInstanceCount(); ++i) { FCDEntity::Type t = n->GetInstance(i)->GetEntityType(); if ((t == FCDEntity::FORCE_FIELD || t == FCDEntity::EMITTER) == (moved == 1)) instance(n->GetInstance(i)); } for (size_t i = 0; kids && i < n->GetChildrenCount(); ++i) node(n->GetChild(i));
	}
	// Geometry.
	template <class L> static std::string floats(const L& l) { std::string r; for (size_t i = 0; i < l.size(); ++i) r += F(l[i]) + " "; return r; }
	static std::string points(const FMVector3List& l) { std::string r; for (size_t i = 0; i < l.size(); ++i) r += V(l[i]) + ", "; return r; }
	void source(const FCDGeometrySource* s) { mine(s); In in(*this, "source", idOf(s)); opt("name", S(s->GetName())); if (used.count(s)) line("type", V((int32) s->GetType())); line("stride", V(s->GetStride())); line("data", floats(s->GetSourceData())); extra(s->GetExtra()); for (size_t i = 0; i < s->GetAnimatedValues().size(); ++i) { const FCDAnimated* a = s->GetAnimatedValues()[i]; if (a->HasCurve()) line("element", V(a->GetArrayElement())); animated(a); } }
	void polygons(const FCDGeometryPolygons* p)
	{
		In in(*this, "polygons", V((int32) p->GetPrimitiveType())); line("material", S(p->GetMaterialSemantic())); std::string s; for (size_t i = 0; i < p->GetFaceVertexCountCount(); ++i) s += V(p->GetFaceVertexCounts()[i]) + " "; line("counts", s); s = ""; for (size_t i = 0; i < p->GetHoleFaceCount(); ++i) s += V(p->GetHoleFaces()[i]) + " "; line("holes", s); line("totals", N(p->GetFaceCount()) + " " + N(p->GetFaceVertexCount()) + " " + N(p->GetFaceOffset()) + " " + N(p->GetFaceVertexOffset()) + " " + N(p->GetHoleOffset()));
		for (size_t i = 0; i < p->GetInputCount(); ++i) { const FCDGeometryPolygonsInput* k = p->GetInput(i); In in2(*this, "input", V(k->GetOffset())); line("source", idOf(k->GetSource())); line("set", V(k->GetSet())); s = ""; for (size_t j = 0; j < k->GetIndexCount(); ++j) s += V(k->GetIndices()[j]) + " "; line("indices", s); } extra(p->GetExtra());
	}
	void mesh(const FCDGeometryMesh* m)
	{
		for (size_t i = 0; i < m->GetVertexSourceCount(); ++i) used.insert(m->GetVertexSource(i)); for (size_t i = 0; i < m->GetPolygonsCount(); ++i) for (size_t j = 0; j < m->GetPolygons(i)->GetInputCount(); ++j) used.insert(m->GetPolygons(i)->GetInput(j)->GetSource()); In in(*this, "mesh"); line("convex", m->IsConvex() ? S(m->GetConvexHullOf()) : "''"); for (size_t i = 0; i < m->GetSourceCount() && (!m->IsConvex() || m->GetConvexHullOf().empty()); ++i) source(m->GetSource(i)); for (size_t i = 0; (!m->IsConvex() || m->GetConvexHullOf().empty()) && i < m->GetVertexSourceCount(); ++i) line("vertexSource", idOf(m->GetVertexSource(i))); if (m->IsConvex() && !m->GetConvexHullOf().empty()) return; for (size_t i = 0; i < m->GetPolygonsCount(); ++i) polygons(m->GetPolygons(i)); line("totals", N(m->GetFaceCount()) + " " + N(m->GetHoleCount()) + " " + N(m->GetFaceVertexCount()));
	}
	void spline(const FCDGeometrySpline* s)
	{
		In in(*this, "splines", V((int32) s->GetType())); for (size_t i = 0; i < s->GetSplineCount(); ++i) { const FCDSpline* k = s->GetSpline(i); In in2(*this, "spline", V((int32) k->GetSplineType())); opt("name", S(k->GetName())); line("closed", V(k->IsClosed())); line("points", points(k->GetCVs())); if (k->IsType(FCDNURBSSpline::GetClassType())) { const FCDNURBSSpline* n = (const FCDNURBSSpline*) k; line("degree", V(n->GetDegree())); line("weights", floats(n->GetWeights())); line("knots", floats(n->GetKnots())); } }
	}
	void geometry(const FCDGeometry* g) { if (g->IsMesh()) mesh(g->GetMesh()); if (g->IsSpline()) spline(g->GetSpline()); }
	void controller(const FCDController* k)
	{
		if (k->IsSkin()) { const FCDSkinController* s = k->GetSkinController(); In in(*this, "skin"); const FCDEntity* t = s->GetTarget(); line("target", t && t->GetDocument() == s->GetDocument() ? idOf(t) : uri(s->GetTargetUri())); line("shape", V(s->GetBindShapeTransform())); for (size_t i = 0; i < s->GetJointCount(); ++i) line("joint", S(s->GetJoint(i)->GetId()) + " " + V(s->GetJoint(i)->GetBindPoseInverse())); for (size_t i = 0; i < s->GetInfluenceCount(); ++i) { std::string r; const FCDSkinControllerVertex* v = s->GetVertexInfluence(i); for (size_t j = 0; j < v->GetPairCount(); ++j) r += V(v->GetPair(j)->jointIndex) + ":" + F(v->GetPair(j)->weight) + " "; line("influence", r); } }
		if (k->IsMorph()) { const FCDMorphController* m = k->GetMorphController(); In in(*this, "morph"); line("base", idOf(m->GetBaseTarget())); line("method", V((int32) m->GetMethod())); for (size_t i = 0; i < m->GetTargetCount(); ++i) { In in2(*this, "target", idOf(m->GetTarget(i)->GetGeometry())); param("weight", m->GetTarget(i)->GetWeight()); } }
	}
	void targeted(const FCDTargetedEntity* t) { if (t->HasTarget()) line("target", idOf(t->GetTargetNode())); }
	void camera(const FCDCamera* k)
	{
		targeted(k); line("projection", V((int32) k->GetProjectionType())); line("views", V(k->GetHasHorizontalViewFlag()) + " " + V(k->GetHasVerticalViewFlag() || !k->GetHasHorizontalViewFlag())); if (k->GetHasHorizontalViewFlag()) param("x", k->GetFovX()); if (k->GetHasVerticalViewFlag() || !k->GetHasHorizontalViewFlag()) param("y", k->GetFovY()); if (k->HasAspectRatio()) param("aspect", k->GetAspectRatio()); param("near", k->GetNearZ()); param("far", k->GetFarZ());
	}
	void light(const FCDLight* l)
	{
		targeted(l); line("kind", V((int32) l->GetLightType())); param("color", l->GetColor()); param("intensity", l->GetIntensity()); FCDLight::LightType t = l->GetLightType(); if (t != FCDLight::AMBIENT) { param("constant", l->GetConstantAttenuationFactor()); param("linear", l->GetLinearAttenuationFactor()); param("quadratic", l->GetQuadraticAttenuationFactor()); } if (t == FCDLight::SPOT || t == FCDLight::DIRECTIONAL) { param("exponent", l->GetFallOffExponent()); param("angle", l->GetFallOffAngle()); } if (t == FCDLight::SPOT || t == FCDLight::DIRECTIONAL) param("outer", l->GetOuterAngle()); if (t == FCDLight::SPOT) param("dropoff", l->GetDropoff());
	}
	void animation(const FCDAnimation* a)
	{
		if (rel) { for (size_t i = 0; i < a->GetChannelCount(); ++i) { In in(*this, "channel"); for (size_t j = 0; j < a->GetChannel(i)->GetCurveCount(); ++j) curve(a->GetChannel(i)->GetCurve(j)); } if (kids) for (size_t i = 0; i < a->GetChildrenCount(); ++i) { In in(*this, "animation"); entity(a->GetChild(i)); animation(a->GetChild(i)); } return; }
		std::multiset<std::string> names; for (size_t i = 0; i < a->GetChannelCount(); ++i) for (size_t j = 0; j < a->GetChannel(i)->GetCurveCount(); ++j) names.insert(label.count(a->GetChannel(i)->GetCurve(j)) ? label[a->GetChannel(i)->GetCurve(j)] : "unused"); for (auto& n : names) line("of", n);
		for (size_t i = 0; i < a->GetChildrenCount(); ++i) { In in(*this, "animation", idOf(a->GetChild(i))); entity(a->GetChild(i)); animation(a->GetChild(i)); }
	}
	void clip(const FCDAnimationClip* k)
	{
		line("range", F(k->GetStart()) + " " + F(k->GetEnd())); std::set<std::string> names; for (size_t i = 0; i < k->GetAnimationCount(); ++i) names.insert(idOf(k->GetAnimation(i))); for (size_t i = 0; i < k->GetClipCurves().size(); ++i) names.insert(idOf(k->GetClipCurves()[i]->GetParent()->GetParent())); for (auto& n : names) line("animation", n);
	}
	void image(const FCDImage* i); void material(const FCDMaterial* m); void effect(const FCDEffect* e); void standard(const FCDEffectStandard* s); void physicsMaterial(const FCDPhysicsMaterial* m); void physicsModel(const FCDPhysicsModel* m); void physicsScene(const FCDPhysicsScene* s); void forceField(const FCDForceField* f); void emitter(const FCDEmitter* e); void surface(const FCDPhysicsMaterial* m, bool own); void shape(const FCDPhysicsShape* s); void body(const FCDPhysicsRigidBodyParameters* p); void physicsInstance(const FCDPhysicsModelInstance* m);
	template <class T, class Fn> void library(const char* name, const FCDLibrary<T>* l, Fn fn)
	{
		In in(*this, name); asset(l->GetAsset()); extra(l->GetExtra()); for (size_t i = 0; i < l->GetEntityCount(); ++i) { const T* e = l->GetEntity(i); In in2(*this, "entity", idOf(e)); entity(e); fn(e); }
	}
	void pass(const FCDocument* d)
	{
		o.clear(); done.clear(); depth = 0; at.clear(); doc = d; asset(d->GetAsset()); extra(d->GetExtra()); if (d->HasStartTime()) line("start", F(d->GetStartTime())); if (d->HasEndTime()) line("end", F(d->GetEndTime()));
		for (size_t i = 0; i < d->GetLayerCount(); ++i) { In in(*this, "layer", S(d->GetLayer(i)->name)); for (size_t j = 0; j < d->GetLayer(i)->objects.size(); ++j) line("object", S(d->GetLayer(i)->objects[j])); }
		line("scene", idOf(d->GetVisualSceneInstance())); for (size_t i = 0; i < d->GetPhysicsSceneInstanceCount(); ++i) line("physics", idOf(d->GetPhysicsSceneInstance(i)));
		library("images", d->GetImageLibrary(), [&](const FCDImage* e) { image(e); }); library("effects", d->GetEffectLibrary(), [&](const FCDEffect* e) { effect(e); }); library("materials", d->GetMaterialLibrary(), [&](const FCDMaterial* e) { material(e); });
		library("geometries", d->GetGeometryLibrary(), [&](const FCDGeometry* e) { geometry(e); }); library("controllers", d->GetControllerLibrary(), [&](const FCDController* e) { controller(e); }); library("cameras", d->GetCameraLibrary(), [&](const FCDCamera* e) { camera(e); }); library("lights", d->GetLightLibrary(), [&](const FCDLight* e) { light(e); });
		library("forcefields", d->GetForceFieldLibrary(), [&](const FCDForceField* e) { forceField(e); }); library("emitters", d->GetEmitterLibrary(), [&](const FCDEmitter* e) { emitter(e); });
		library("physicsmaterials", d->GetPhysicsMaterialLibrary(), [&](const FCDPhysicsMaterial* e) { physicsMaterial(e); }); library("physicsmodels", d->GetPhysicsModelLibrary(), [&](const FCDPhysicsModel* e) { physicsModel(e); }); library("physicsscenes", d->GetPhysicsSceneLibrary(), [&](const FCDPhysicsScene* e) { physicsScene(e); });
		{ In in(*this, "scenes"); asset(d->GetVisualSceneLibrary()->GetAsset()); extra(d->GetVisualSceneLibrary()->GetExtra()); for (size_t i = 0; i < d->GetVisualSceneLibrary()->GetEntityCount(); ++i) node(d->GetVisualSceneLibrary()->GetEntity(i)); }
		library("animations", d->GetAnimationLibrary(), [&](const FCDAnimation* e) { animation(e); }); library("clips", d->GetAnimationClipLibrary(), [&](const FCDAnimationClip* e) { clip(e); });
	}
	static std::string of(const FCDocument* d) { Dump x; x.pass(d); x.pass(d); return x.o; }
};
// Effect parameters: how they are written, what they are called, what they hold.
inline void Dump::effectParameter(const FCDEffectParameter* p)
{
	FCDEffectParameter* q = const_cast<FCDEffectParameter*>(p); In in(*this, "parameter", V((int32) p->GetType()) + " " + V((int32) p->GetParamType())); line("reference", S(p->GetReference())); opt("semantic", S(p->GetSemantic()));
	for (size_t i = 0; i < p->GetAnnotationCount(); ++i) { const FCDEffectParameterAnnotation* a = p->GetAnnotation(i); line("annotation", S(*a->name) + " " + V((uint32) *a->type) + " " + S(*a->value)); }
	bool free = !p->IsAnimator() && !p->IsReferencer();
	switch (p->GetType())
	{
	case FCDEffectParameter::INTEGER: line("value", V(((FCDEffectParameterInt*) q)->GetValue())); break;
	case FCDEffectParameter::BOOLEAN: line("value", V(((FCDEffectParameterBool*) q)->GetValue())); break;
	case FCDEffectParameter::STRING: line("value", S(((FCDEffectParameterString*) q)->GetValue())); break;
	case FCDEffectParameter::FLOAT: if (free) { line("float", V((int32) ((FCDEffectParameterFloat*) q)->GetFloatType())); param("value", ((FCDEffectParameterFloat*) q)->GetValue()); } break;
	case FCDEffectParameter::FLOAT2: line("float", V((int32) ((FCDEffectParameterFloat2*) q)->GetFloatType())); param("value", ((FCDEffectParameterFloat2*) q)->GetValue()); break;
	case FCDEffectParameter::FLOAT3: if (free) { line("float", V((int32) ((FCDEffectParameterFloat3*) q)->GetFloatType())); param("value", ((FCDEffectParameterFloat3*) q)->GetValue()); } break;
	case FCDEffectParameter::VECTOR: if (free) { line("float", V((int32) ((FCDEffectParameterVector*) q)->GetFloatType())); param("value", ((FCDEffectParameterVector*) q)->GetValue()); } break;
	case FCDEffectParameter::MATRIX: line("float", V((int32) ((FCDEffectParameterMatrix*) q)->GetFloatType())); param("value", ((FCDEffectParameterMatrix*) q)->GetValue()); break;
	case FCDEffectParameter::SAMPLER: { FCDEffectParameterSampler* s = (FCDEffectParameterSampler*) q; int t = s->GetSamplerType(); line("sampler", V((int32) t)); line("surface", s->GetSurface() ? S(s->GetSurface()->GetReference()) : "none"); line("s", V((int32) s->GetWrapS())); if (t != FCDEffectParameterSampler::SAMPLER1D) line("t", V((int32) s->GetWrapT())); if (t > FCDEffectParameterSampler::SAMPLER2D) line("p", V((int32) s->GetWrapP())); line("filters", V((int32) s->GetMinFilter()) + " " + V((int32) s->GetMagFilter()) + " " + V((int32) s->GetMipFilter())); break; }
	case FCDEffectParameter::SURFACE: {
		FCDEffectParameterSurface* s = (FCDEffectParameterSurface*) q; opt("surfacetype", S(s->GetSurfaceType())); const FCDEffectParameterSurfaceInit* m = s->GetInitMethod(); if (m) { In in2(*this, "init", V((int32) m->GetInitType())); auto all = [](const StringList& l) { std::string r; for (auto& x : l) r += S(x) + " "; return r; };
			if (m->GetInitType() == FCDEffectParameterSurfaceInitFactory::FROM) { auto f = (const FCDEffectParameterSurfaceInitFrom*) m; line("mip", all(f->mip)); line("slice", all(f->slice)); line("face", all(f->face)); } if (m->GetInitType() == FCDEffectParameterSurfaceInitFactory::CUBE) line("cube", V((int32) ((const FCDEffectParameterSurfaceInitCube*) m)->cubeType)); if (m->GetInitType() == FCDEffectParameterSurfaceInitFactory::VOLUME) line("volume", V((int32) ((const FCDEffectParameterSurfaceInitVolume*) m)->volumeType)); }
		for (size_t i = 0; i < s->GetImageCount(); ++i) line("image", idOf(s->GetImage(i))); opt("format", S(s->GetFormat())); if (const FCDFormatHint* h = s->GetFormatHint()) { std::string o; for (auto x : h->options) o += " " + V((int32) x); line("hint", V((int32) h->channels) + " " + V((int32) h->range) + " " + V((int32) h->precision) + " options" + o); } line("size", V(s->GetSize())); line("ratio", F(s->GetViewportRatio())); line("mips", V((uint32) s->GetMipLevelCount())); line("generate", V(s->IsGenerateMipMaps())); break; }
	}
}
inline void Dump::image(const FCDImage* i) { line("file", S(i->GetFilename())); line("size", V(i->GetWidth()) + " " + V(i->GetHeight()) + " " + V(i->GetDepth())); }
inline void Dump::material(const FCDMaterial* m)
{
	const FCDEffect* e = m->GetEffect(); if (rel && kids && e) { In in(*this, "effect"); entity(e); effect(e); } else line("effect", e && (rel || e->GetDocument() == m->GetDocument()) ? idOf(e) : uri(m->GetEffectReference()->GetUri())); for (auto& h : m->GetTechniqueHints()) line("hint", S(h.platform) + " " + S(h.technique)); for (size_t i = 0; i < m->GetEffectParameterCount(); ++i) effectParameter(m->GetEffectParameter(i));
}
inline void Dump::standard(const FCDEffectStandard* s)
{
	auto t = s->GetLightingType(); line("lighting", V((int32) t)); line("flags", V(s->IsEmissionFactor()) + " " + V(s->IsReflective()) + " " + V(s->IsRefractive())); line("transparency", V((int32) s->GetTransparencyMode()));
	auto color = [&](const char* k, const FCDEffectParameterColor4* c) { In in(*this, k, V((int32) c->GetParamType())); opt("reference", S(c->GetReference())); if (c->IsConstant()) param("value", c->GetValue()); }; auto factor = [&](const char* k, const FCDEffectParameterFloat* c) { In in(*this, k, V((int32) c->GetParamType())); opt("reference", S(c->GetReference())); if (c->IsConstant()) param("value", c->GetValue()); };
	auto bucket = [&](uint32 b) { for (size_t i = 0; i < s->GetTextureCount(b); ++i) { const FCDTexture* x = s->GetTexture(b, i); In in(*this, "texture", V(b)); line("sampler", x->GetSampler() ? S(x->GetSampler()->GetReference()) : "none"); line("set", S(x->GetSet()->GetSemantic())); extra(x->GetExtra()); } };
	// A value is only there when there is no texture instead of it.
	auto both = [&](uint32 b, auto f) { bucket(b); if (s->GetTextureCount(b) == 0) f(); };
	if (!s->IsEmissionFactor()) both(FUDaeTextureChannel::EMISSION, [&] { color("emission", s->GetEmissionColorParam()); }); else factor("emissionFactor", s->GetEmissionFactorParam());
	if (t != FCDEffectStandard::CONSTANT) { both(FUDaeTextureChannel::AMBIENT, [&] { color("ambient", s->GetAmbientColorParam()); }); both(FUDaeTextureChannel::DIFFUSE, [&] { color("diffuse", s->GetDiffuseColorParam()); }); if (t != FCDEffectStandard::LAMBERT) { both(FUDaeTextureChannel::SPECULAR, [&] { color("specular", s->GetSpecularColorParam()); }); factor("shininess", s->GetShininessParam()); bucket(FUDaeTextureChannel::SHININESS); both(FUDaeTextureChannel::SPECULAR_LEVEL, [&] { factor("specularFactor", s->GetSpecularFactorParam()); }); } }
	if (s->IsReflective()) { both(FUDaeTextureChannel::REFLECTION, [&] { color("reflective", s->GetReflectivityColorParam()); }); factor("reflectivity", s->GetReflectivityFactorParam()); } both(FUDaeTextureChannel::TRANSPARENT, [&] { color("transparent", s->GetTranslucencyColorParam()); }); factor("translucency", s->GetTranslucencyFactorParam()); if (s->IsRefractive()) factor("refraction", s->GetIndexOfRefractionParam()); bucket(FUDaeTextureChannel::BUMP); bucket(FUDaeTextureChannel::DISPLACEMENT); bucket(FUDaeTextureChannel::FILTER); bucket(FUDaeTextureChannel::REFRACTION);
}
inline void Dump::effect(const FCDEffect* e)
{
	auto code = [&](const FCDEffectCode* k) { In in(*this, "code", V((int32) k->GetType())); line("sid", S(k->GetSubId())); line("text", S(k->GetType() == FCDEffectCode::CODE ? k->GetCode() : k->GetFilename())); };
	for (size_t i = 0; i < e->GetEffectParameterCount(); ++i) effectParameter(e->GetEffectParameter(i));
	for (size_t i = 0; i < e->GetProfileCount(); ++i)
	{
		const FCDEffectProfile* p = e->GetProfile(i); In in(*this, "profile", V((int32) p->GetType())); for (size_t k = 0; k < p->GetEffectParameterCount(); ++k) effectParameter(p->GetEffectParameter(k)); if (p->GetType() == FUDaeProfileType::COMMON) { standard((const FCDEffectStandard*) p); extra(p->GetExtra()); continue; }
		const FCDEffectProfileFX* f = (const FCDEffectProfileFX*) p; line("platform", S(f->GetPlatform())); for (size_t k = 0; k < f->GetCodeCount(); ++k) code(f->GetCode(k));
		for (size_t k = 0; k < f->GetTechniqueCount(); ++k)
		{
			const FCDEffectTechnique* t = f->GetTechnique(k); In in2(*this, "technique", S(t->GetName())); for (size_t n = 0; n < t->GetCodeCount(); ++n) code(t->GetCode(n)); for (size_t n = 0; n < t->GetEffectParameterCount(); ++n) effectParameter(t->GetEffectParameter(n));
			for (size_t n = 0; n < t->GetPassCount(); ++n)
			{
				const FCDEffectPass* a = t->GetPass(n); In in3(*this, "pass", S(a->GetPassName())); for (size_t m = 0; m < a->GetRenderStateCount(); ++m) { const FCDEffectPassState* x = a->GetRenderState(m); std::string h; for (size_t y = 0; y < x->GetDataSize(); ++y) { char b[4]; snprintf(b, 4, "%02x", x->GetData()[y]); h += b; } line("state", V((int32) x->GetType()) + " " + h); }
				for (size_t m = 0; m < a->GetShaderCount(); ++m) { const FCDEffectPassShader* x = a->GetShader(m); In in4(*this, "shader", V(x->IsFragmentShader())); line("name", S(x->GetName())); line("target", S(x->GetCompilerTarget())); line("options", S(x->GetCompilerOptions())); line("code", x->GetCode() ? S(x->GetCode()->GetSubId()) : "none"); for (size_t y = 0; y < x->GetBindingCount(); ++y) line("bind", S(*x->GetBinding(y)->reference) + " " + S(*x->GetBinding(y)->symbol)); }
			}
		}
		extra(p->GetExtra());
	}
}
inline void Dump::physicsMaterial(const FCDPhysicsMaterial* m) { line("static", F(m->GetStaticFriction())); line("dynamic", F(m->GetDynamicFriction())); line("restitution", F(m->GetRestitution())); }
inline void Dump::forceField(const FCDForceField* f) { In in(*this, "information"); extra(f->GetInformation()); }
inline void Dump::emitter(const FCDEmitter*) { }
// The material of a body or a shape: its own one, or one of the library.
inline void Dump::surface(const FCDPhysicsMaterial* m, bool own) { if (!m) { line("material", "none"); return; } In in(*this, own ? "ownMaterial" : "material", own ? "" : idOf(m)); if (own) { entity(m); physicsMaterial(m); } }
inline void Dump::shape(const FCDPhysicsShape* s)
{
	FCDPhysicsShape* t = const_cast<FCDPhysicsShape*>(s); In in(*this, "shape"); line("hollow", V(s->IsHollow())); bool density = s->GetDensityPointer() && (s->IsDensityMoreAccurate() || !s->GetMassPointer()); if (density) line("density", F(s->GetDensity())); else if (s->GetMassPointer()) line("mass", F(s->GetMass())); surface(s->GetPhysicsMaterial(), t->OwnsPhysicsMaterial());
	if (s->GetGeometryInstance()) instance(s->GetGeometryInstance());
	if (const FCDPhysicsAnalyticalGeometry* g = s->GetAnalyticalGeometry()) { In in2(*this, "analytical", V((int32) g->GetGeomType())); switch (g->GetGeomType()) { case FCDPhysicsAnalyticalGeometry::BOX: line("half", V(((const FCDPASBox*) g)->halfExtents)); break; case FCDPhysicsAnalyticalGeometry::PLANE: line("plane", V(((const FCDPASPlane*) g)->normal) + " " + F(((const FCDPASPlane*) g)->d)); break; case FCDPhysicsAnalyticalGeometry::SPHERE: line("radius", F(((const FCDPASSphere*) g)->radius)); break; case FCDPhysicsAnalyticalGeometry::TAPERED_CYLINDER: line("second", V(((const FCDPASTaperedCylinder*) g)->radius2)); /* fall through */ case FCDPhysicsAnalyticalGeometry::CYLINDER: line("height", F(((const FCDPASCylinder*) g)->height)); line("radius", V(((const FCDPASCylinder*) g)->radius)); break; case FCDPhysicsAnalyticalGeometry::TAPERED_CAPSULE: line("second", V(((const FCDPASTaperedCapsule*) g)->radius2)); /* fall through */ case FCDPhysicsAnalyticalGeometry::CAPSULE: line("height", F(((const FCDPASCapsule*) g)->height)); line("radius", V(((const FCDPASCapsule*) g)->radius)); break; } }
	for (size_t i = 0; i < s->GetTransforms().size(); ++i) transform(s->GetTransforms()[i]);
}
inline void Dump::body(const FCDPhysicsRigidBodyParameters* p)
{
	FCDPhysicsRigidBodyParameters* q = const_cast<FCDPhysicsRigidBodyParameters*>(p); In in(*this, "parameters"); param("dynamic", p->GetDynamic()); param("mass", p->GetMass()); param("translate", p->GetMassFrameTranslate()); param("rotate", p->GetMassFrameOrientation()); if (q->IsInertiaAccurate()) param("inertia", p->GetInertia()); surface(p->GetPhysicsMaterial(), q->OwnsPhysicsMaterial()); for (size_t i = 0; i < p->GetPhysicsShapeCount(); ++i) shape(p->GetPhysicsShape(i));
}
inline void Dump::physicsInstance(const FCDPhysicsModelInstance* m)
{
	In in(*this, "model"); target(m); for (FCDEntity::Type t : { FCDEntity::FORCE_FIELD, FCDEntity::PHYSICS_RIGID_BODY, FCDEntity::PHYSICS_RIGID_CONSTRAINT }) for (size_t i = 0; i < m->GetInstanceCount(); ++i) { const FCDEntityInstance* k = m->GetInstance(i); if (k->GetEntityType() != t) continue; if (t == FCDEntity::FORCE_FIELD) { instance(k); continue; } In in2(*this, t == FCDEntity::PHYSICS_RIGID_BODY ? "body" : "constraint"); const FCDEntity* e = k->GetEntity(); line("of", !e ? "none" : t == FCDEntity::PHYSICS_RIGID_BODY ? S(((const FCDPhysicsRigidBody*) e)->GetSubId()) : S(((const FCDPhysicsRigidConstraint*) e)->GetSubId())); opt("name", S(k->GetName())); opt("sid", S(k->GetWantedSubId())); extra(k->GetExtra()); if (t == FCDEntity::PHYSICS_RIGID_BODY) { const FCDPhysicsRigidBodyInstance* b = (const FCDPhysicsRigidBodyInstance*) k; if (!rel) line("target", idOf(b->GetTargetNode())); param("velocity", b->GetVelocity()); param("angular", b->GetAngularVelocity()); body(b->GetParameters()); } }
}
inline void Dump::physicsModel(const FCDPhysicsModel* m)
{
	auto name = [&](const FCDPhysicsRigidBody* b) { return "body " + (rel ? idOf(b) : S(b->GetSubId())); }; for (size_t i = 0; i < m->GetRigidBodyCount(); ++i) mine(m->GetRigidBody(i));
	for (size_t i = 0; i < m->GetInstanceCount(); ++i) physicsInstance(m->GetInstance(i));
	for (size_t i = 0; i < m->GetRigidBodyCount(); ++i) { const FCDPhysicsRigidBody* b = m->GetRigidBody(i); In in(*this, "body", rel ? idOf(b) : S(b->GetSubId())); entity(b); body(b->GetParameters()); }
	for (size_t i = 0; i < m->GetRigidConstraintCount(); ++i)
	{
		const FCDPhysicsRigidConstraint* k = m->GetRigidConstraint(i); In in(*this, "constraint", S(k->GetSubId())); opt("name", S(k->GetName())); asset(k->GetAsset()); extra(k->GetExtra()); line("reference", k->GetReferenceRigidBody() ? name(k->GetReferenceRigidBody()) : idOf(k->GetReferenceNode())); for (size_t j = 0; j < k->GetTransformsRef().size(); ++j) transform(k->GetTransformsRef()[j]); line("target", k->GetTargetRigidBody() ? name(k->GetTargetRigidBody()) : idOf(k->GetTargetNode())); for (size_t j = 0; j < k->GetTransformsTar().size(); ++j) transform(k->GetTransformsTar()[j]);
		param("enabled", k->GetEnabled()); param("interpenetrate", k->GetInterpenetrate()); line("linear", V(*k->GetLimitsLinearMin()) + " / " + V(*k->GetLimitsLinearMax())); line("swing", V(*k->GetLimitsSCTMin()) + " / " + V(*k->GetLimitsSCTMax())); line("springLinear", F(k->GetSpringLinearStiffness()) + " " + F(k->GetSpringLinearDamping()) + " " + F(k->GetSpringLinearTargetValue())); line("springAngular", F(k->GetSpringAngularStiffness()) + " " + F(k->GetSpringAngularDamping()) + " " + F(k->GetSpringAngularTargetValue()));
	}
}
inline void Dump::physicsScene(const FCDPhysicsScene* s)
{
	line("gravity", V(s->GetGravity())); line("step", F(s->GetTimestep())); for (size_t i = 0; i < s->GetForceFieldInstancesCount(); ++i) instance(s->GetForceFieldInstance(i)); for (size_t i = 0; i < s->GetPhysicsModelInstancesCount(); ++i) physicsInstance(s->GetPhysicsModelInstance(i));
}
// The first difference between two texts: a stable name (labels only) and both lines.
inline bool textDiff(const std::string& a, const std::string& b, std::string& key, std::string& what)
{
	auto split = [](const std::string& s) { std::vector<std::string> r; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); r.push_back(s.substr(i, j - i)); i = j + 1; } return r; };
	std::vector<std::string> x = split(a), y = split(b); size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) ++i; if (i == x.size() && i == y.size()) return false;
	auto ind = [](const std::string& s) { size_t n = 0; while (n < s.size() && s[n] == ' ') ++n; return n; }; auto lab = [&](const std::string& s) { size_t n = ind(s); size_t e = s.find(' ', n); return s.substr(n, e == std::string::npos ? e : e - n); };
	// Name it after the deeper of the two lines.
	const std::vector<std::string>& w = i >= x.size() ? y : i >= y.size() ? x : ind(y[i]) > ind(x[i]) ? y : x; size_t d = ind(w[i]); key = lab(w[i]); for (size_t k = i; k-- > 0 && d > 0; ) if (ind(w[k]) < d) { d = ind(w[k]); key = lab(w[k]) + "." + key; }
	what = "'" + (i < x.size() ? x[i] : std::string("(nothing)")) + "' became '" + (i < y.size() ? y[i] : std::string("(nothing)")) + "'"; return true;
}
