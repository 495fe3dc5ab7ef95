From 8fbf0b230b914f08e160b0e744b37be45d3b7221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:00 +0000
Subject: [PATCH 01/30] fix: CutsceneLibrary::block_by_name returns a different
 block if the name does not exist

---
 src/CutsceneLibrary.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index 49bd4cd..1e3043d 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -109,7 +109,7 @@ namespace zenkit {
 			return it->name < n;
 		});
 
-		if (result == this->blocks.end()) {
+		if (result == this->blocks.end() || (*result)->name != name) {
 			return nullptr;
 		}
 
-- 
2.43.0


From ebe86c577aad35c2280c086b7d0e4d20085028e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:00 +0000
Subject: [PATCH 02/30] fix: Texture::as_rgba8 writes to an empty vector for
 paletted textures

---
 src/Texture.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index bc5106c..7427a60 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -323,7 +323,7 @@ namespace zenkit {
 		auto height = mipmap_height(mipmap_level);
 
 		if (_m_format == TextureFormat::P8) {
-			std::vector<std::uint8_t> conv;
+			std::vector<std::uint8_t> conv(static_cast<size_t>(width) * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
 				auto palentry = _m_palette[map[i]];
 				conv[i * 4 + 0] = palentry.r;
-- 
2.43.0


From 5a36c558fc496b4b7a04b4d636d2954118954cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:00 +0000
Subject: [PATCH 03/30] fix: find_locals_for_function loses the locals of the
 last function in the symbol table

---
 src/DaedalusScript.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index f40ae33..49e5973 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -201,13 +201,14 @@ namespace zenkit {
 		std::uint32_t const first = parent->index() + 1 + parent->count();
 		for (size_t i = first; i < _m_symbols.size(); ++i) {
 			auto& name = _m_symbols[i].name();
-			if (name.find(parent->name()) == 0 && name.size() >= parent->name().size() &&
+			if (name.find(parent->name()) == 0 && name.size() > parent->name().size() &&
 			    name[parent->name().size()] == '.') {
 				continue;
 			}
 			return std::span<DaedalusSymbol>(_m_symbols.begin() + first, _m_symbols.begin() + i);
 		}
-		return {};
+		if (first >= _m_symbols.size()) return {};
+		return std::span<DaedalusSymbol>(_m_symbols.begin() + first, _m_symbols.end());
 	}
 
 	std::span<DaedalusSymbol const> DaedalusScript::find_parameters_for_function(DaedalusSymbol const* parent) const {
-- 
2.43.0


From cee6d5f6bd13d2bed22178b23a40d393dea2f215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:00 +0000
Subject: [PATCH 04/30] fix: Vfs::resolve terminates the process for paths
 leading through a file

---
 src/Vfs.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 690a702..d96bfb1 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -183,6 +183,9 @@ namespace zenkit {
 				continue;
 			}
 
+			// Files don't have any children.
+			if (context->type() != VfsNodeType::DIRECTORY) return nullptr;
+
 			auto name = path.substr(0, next);
 			context = context->child(name);
 
-- 
2.43.0


From 06401b24757e5b25cb122e6caa8a7597d9e0cbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:32 +0000
Subject: [PATCH 05/30] fix: animation mode of packed objects is read from the
 wrong bits

---
 src/vobs/VirtualObject.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 6c23fd2..3620273 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -106,7 +106,7 @@ namespace zenkit {
 			this->physics_enabled = static_cast<bool>((bit1 & 0b000000001000000u) >> 6u);
 
 			if (version == GameVersion::GOTHIC_2) {
-				this->anim_mode = static_cast<AnimationType>(bit1 & 0b000000110000000u >> 7u);
+				this->anim_mode = static_cast<AnimationType>((bit1 & 0b000000110000000u) >> 7u);
 				this->bias = static_cast<std::int32_t>((bit1 & 0b011111000000000u) >> 9u);
 				this->ambient = static_cast<bool>((bit1 & 0b100000000000000u) >> 14u);
 
-- 
2.43.0


From d3b0d857e2ef98b73922028928f6751ed1febc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:32 +0000
Subject: [PATCH 06/30] fix: animation mode and bias of packed objects are
 written to the wrong bits

---
 src/vobs/VirtualObject.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 3620273..a8ad4da 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -239,8 +239,8 @@ namespace zenkit {
 			}
 
 			if (version == GameVersion::GOTHIC_2) {
-				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 2) << 7u;
-				bit1 |= (static_cast<uint8_t>(this->bias) & 0b11111) << 13u;
+				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 3) << 7u;
+				bit1 |= (static_cast<uint8_t>(this->bias) & 0b11111) << 9u;
 				bit1 |= this->ambient << 14u;
 
 				pw->write_ushort(bit1);
-- 
2.43.0


From 333320e9002ea7251fc2fbdd44c4040c3b24d973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:32 +0000
Subject: [PATCH 07/30] fix: ten-digit negative integers do not fit the buffer
 when written to ASCII archives

---
 src/archive/ArchiveAscii.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index baa3e39..da55daa 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -303,7 +303,7 @@ namespace zenkit {
 	}
 
 	void WriteArchiveAscii::write_int(std::string_view name, std::int32_t v) {
-		std::array<char, std::numeric_limits<int32_t>::digits10 + 1> buf {};
+		std::array<char, std::numeric_limits<int32_t>::digits10 + 2> buf {};
 		this->write_entry(name, "int", intosv(buf, v));
 	}
 
-- 
2.43.0


From 4f66d3c0415c73df1bbca4bd0984d3d625dcfe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:32 +0000
Subject: [PATCH 08/30] fix: bytes and words are written to ASCII archives with
 a tag the reader rejects

---
 src/archive/ArchiveAscii.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index da55daa..3388a67 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -313,12 +313,12 @@ namespace zenkit {
 
 	void WriteArchiveAscii::write_byte(std::string_view name, std::uint8_t v) {
 		std::array<char, std::numeric_limits<uint8_t>::digits10 + 1> buf {};
-		this->write_entry(name, "byte", intosv(buf, v));
+		this->write_entry(name, "int", intosv(buf, v));
 	}
 
 	void WriteArchiveAscii::write_word(std::string_view name, std::uint16_t v) {
 		std::array<char, std::numeric_limits<uint16_t>::digits10 + 1> buf {};
-		this->write_entry(name, "word", intosv(buf, v));
+		this->write_entry(name, "int", intosv(buf, v));
 	}
 
 	void WriteArchiveAscii::write_enum(std::string_view name, std::uint32_t v) {
-- 
2.43.0


From 2ce2b05a6c0f329c3445bbc014814ce8543fbcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:32 +0000
Subject: [PATCH 09/30] fix: small bytes following large ones are garbled in
 raw entries of ASCII archives

---
 src/archive/ArchiveAscii.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 3388a67..608ae1a 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -372,10 +372,9 @@ namespace zenkit {
 		this->_m_write->write_string(name);
 		this->_m_write->write_string("=raw:");
 
-		std::array<char, 3> buf {};
-		buf[2] = '\0';
 		for (auto i = 0u; i < length; ++i) {
-			std::to_chars(buf.data(), buf.data() + buf.size(), static_cast<unsigned char>(v[i]), 16);
+			std::array<char, 3> buf {};
+			std::to_chars(buf.data(), buf.data() + 2, static_cast<unsigned char>(v[i]), 16);
 
 			if (buf[1] == '\0') {
 				this->_m_write->write_char('0');
-- 
2.43.0


From 2eca93a9e44a33827bbcffae76bc82383b37598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:33 +0000
Subject: [PATCH 10/30] fix: matrices are written to ASCII archives in a form
 the reader rejects

---
 src/archive/ArchiveAscii.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 608ae1a..945afad 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -360,7 +360,7 @@ namespace zenkit {
 
 	void WriteArchiveAscii::write_mat3x3(std::string_view name, Mat3 const& v) {
 		auto vT = v.transpose();
-		this->write_raw_float(name, vT.pointer(), 9);
+		this->write_raw(name, reinterpret_cast<std::byte const*>(vT.pointer()), 9 * sizeof(float));
 	}
 
 	void WriteArchiveAscii::write_raw(std::string_view name, std::vector<std::byte> const& v) {
-- 
2.43.0


From d7e3b9924944d79bc80f03cf1418f859eb3290e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:45 +0000
Subject: [PATCH 11/30] fix: the type of an unknown visual is read from beyond
 the end of the type table

---
 src/vobs/VirtualObject.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index a8ad4da..318f999 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -167,7 +167,7 @@ namespace zenkit {
 				}
 
 				this->visual->name = visual_name;
-				this->visual->type = it->second;
+				this->visual->type = this->associated_visual_type;
 				if (this->visual->type == VisualType::DECAL) {
 					this->visual_decal.emplace(*reinterpret_cast<VisualDecal*>(this->visual.get()));
 				}
-- 
2.43.0


From 40900fecb6f252b225236ee2a93934a9d2ce0228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:45 +0000
Subject: [PATCH 12/30] fix: objects saved unpacked contain entries their
 loader does not expect

---
 src/vobs/VirtualObject.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 318f999..eacbcc8 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -280,27 +280,30 @@ namespace zenkit {
 			}
 		}
 
-		if (!this->preset_name.empty()) {
+		if (pack && !this->preset_name.empty()) {
 			w.write_string("presetName", this->preset_name);
 		}
 
-		if (!this->vob_name.empty()) {
+		if (pack && !this->vob_name.empty()) {
 			w.write_string("vobName", this->vob_name);
 		}
 
-		if (this->visual && !this->visual->name.empty()) {
+		if (pack && this->visual && !this->visual->name.empty()) {
 			w.write_string("visual", this->visual->name);
 		}
 
+		// Objects which aren't packed always contain a visual and an AI, even if they are empty.
 		if (this->visual && this->visual->type != VisualType::UNKNOWN) {
 			w.write_object("visual", this->visual, version);
+		} else if (!pack) {
+			w.write_object("visual", std::shared_ptr<Object> {}, version);
 		}
 
-		if (this->ai) {
+		if (this->ai || !pack) {
 			w.write_object("ai", this->ai, version);
 		}
 
-		if (this->event_manager) {
+		if (pack && this->event_manager) {
 			w.write_object(this->event_manager, version);
 		}
 
-- 
2.43.0


From 3a390f56b8b893cc2f2b241605c84eb68f0afac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:57 +0000
Subject: [PATCH 13/30] fix: the alpha function of materials is written as a
 boolean its loader rejects

---
 src/Material.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Material.cc b/src/Material.cc
index 35fd893..7b86d5e 100644
--- a/src/Material.cc
+++ b/src/Material.cc
@@ -116,7 +116,7 @@ namespace zenkit {
 			w.write_float("waveMaxAmplitude", this->wave_max_amplitude);
 			w.write_float("waveGridSize", this->wave_grid_size);
 			w.write_bool("ignoreSunLight", this->ignore_sun);
-			w.write_bool("alphaFunc", static_cast<bool>(this->alpha_func));
+			w.write_enum("alphaFunc", static_cast<uint32_t>(this->alpha_func));
 		}
 
 		w.write_vec2("defaultMapping", this->default_mapping);
-- 
2.43.0


From f9d5f0e0cc8280cfb7820ed6409b93ab4050d3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:57 +0000
Subject: [PATCH 14/30] fix: the NPC spawn flags of worlds are written as a
 boolean their loader rejects

---
 src/World.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/World.cc b/src/World.cc
index 90c30e6..0254bed 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -241,7 +241,7 @@ namespace zenkit {
 			w.write_bool("spawningEnabled", this->npc_spawn_enabled);
 
 			if (version == GameVersion::GOTHIC_2) {
-				w.write_bool("spawnFlags", this->npc_spawn_flags);
+				w.write_int("spawnFlags", this->npc_spawn_flags);
 			}
 		}
 	}
-- 
2.43.0


From 81433492d6816d0e0487036c0780165f60de0bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:11 +0000
Subject: [PATCH 15/30] fix: Gothic II meshes are saved with indices of the
 triangulated polygons, beyond their end

---
 src/Mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index 0462c4a..db315ca 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -328,8 +328,8 @@ namespace zenkit {
 						c->write_ushort(this->polygon_vertex_indices[poly.index_offset + i]);
 						c->write_uint(this->polygon_feature_indices[poly.index_offset + i]);
 					} else {
-						c->write_uint(this->polygons.vertex_indices[poly.index_offset + i]);
-						c->write_uint(this->polygons.feature_indices[poly.index_offset + i]);
+						c->write_uint(this->polygon_vertex_indices[poly.index_offset + i]);
+						c->write_uint(this->polygon_feature_indices[poly.index_offset + i]);
 					}
 				}
 			}
-- 
2.43.0


From 62854b28feed5bbd6fb9129399d5166f1e8f3be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:41 +0000
Subject: [PATCH 16/30] fix: multi-resolution meshes are saved with sizes in
 bytes where their loader expects element counts

---
 src/MultiResolutionMesh.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index e3bed8c..768aed3 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -129,7 +129,7 @@ namespace zenkit {
 
 		auto off_end = static_cast<ssize_t>(w->tell());
 		w->seek(off_size, Whence::BEG);
-		w->write_uint(off_end - off_size);
+		w->write_uint(off_end - static_cast<ssize_t>(off_content));
 		w->seek(off_end, Whence::BEG);
 
 		w->write_ubyte(this->sub_meshes.size());    // submeshCount
@@ -184,8 +184,8 @@ namespace zenkit {
 		this->bbox.save(w);
 		this->obbox.save(w);
 
-		char padding[10] {0};
-		w->write(padding, 10);
+		char padding[0x10] {0};
+		w->write(padding, 0x10);
 	}
 
 	void SubMesh::load(Read* r, SubMeshSection const& map) {
@@ -274,7 +274,7 @@ namespace zenkit {
 			w->write_ushort(tri.wedges[1]);
 			w->write_ushort(tri.wedges[2]);
 		}
-		section.triangles.size = w->tell() - section.triangles.offset;
+		section.triangles.size = this->triangles.size();
 
 		// wedges
 		section.wedges.offset = w->tell();
@@ -284,21 +284,21 @@ namespace zenkit {
 			w->write_ushort(wedge.index);
 			w->write_ushort(0); // padding
 		}
-		section.wedges.size = w->tell() - section.wedges.offset;
+		section.wedges.size = this->wedges.size();
 
 		// colors
 		section.colors.offset = w->tell();
 		for (auto color : this->colors) {
 			w->write_float(color);
 		}
-		section.colors.size = w->tell() - section.colors.offset;
+		section.colors.size = this->colors.size();
 
 		// triangle_plane_indices
 		section.triangle_plane_indices.offset = w->tell();
 		for (auto i : this->triangle_plane_indices) {
 			w->write_ushort(i);
 		}
-		section.triangle_plane_indices.size = w->tell() - section.triangle_plane_indices.offset;
+		section.triangle_plane_indices.size = this->triangle_plane_indices.size();
 
 		// triangle_planes
 		section.triangle_planes.offset = w->tell();
@@ -306,7 +306,7 @@ namespace zenkit {
 			w->write_float(plane.distance);
 			w->write_vec3(plane.normal);
 		}
-		section.triangle_planes.size = w->tell() - section.triangle_planes.offset;
+		section.triangle_planes.size = this->triangle_planes.size();
 
 		// triangle_edges
 		section.triangle_edges.offset = w->tell();
@@ -315,7 +315,7 @@ namespace zenkit {
 			w->write_ushort(edge.edges[1]);
 			w->write_ushort(edge.edges[2]);
 		}
-		section.triangle_edges.size = w->tell() - section.triangle_edges.offset;
+		section.triangle_edges.size = this->triangle_edges.size();
 
 		// edges
 		section.edges.offset = w->tell();
@@ -323,21 +323,21 @@ namespace zenkit {
 			w->write_ushort(edge.edges[0]);
 			w->write_ushort(edge.edges[1]);
 		}
-		section.edges.size = w->tell() - section.edges.offset;
+		section.edges.size = this->edges.size();
 
 		// edge_scores
 		section.edge_scores.offset = w->tell();
 		for (auto score : edge_scores) {
 			w->write_float(score);
 		}
-		section.edge_scores.size = w->tell() - section.edge_scores.offset;
+		section.edge_scores.size = this->edge_scores.size();
 
 		// wedge_map
 		section.wedge_map.offset = w->tell();
 		for (auto wedge : this->wedge_map) {
 			w->write_ushort(wedge);
 		}
-		section.wedge_map.size = w->tell() - section.wedge_map.offset;
+		section.wedge_map.size = this->wedge_map.size();
 
 		return section;
 	}
-- 
2.43.0


From 12d00734452a7c28ad79d254b7bf0d3dd7bdad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:41 +0000
Subject: [PATCH 17/30] fix: the node chunk of soft-skin meshes is saved as a
 second header with a wrong weight size

---
 src/SoftSkinMesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SoftSkinMesh.cc b/src/SoftSkinMesh.cc
index 8612179..8444548 100644
--- a/src/SoftSkinMesh.cc
+++ b/src/SoftSkinMesh.cc
@@ -88,7 +88,7 @@ namespace zenkit {
 			this->mesh.save_to_section(wr, version);
 		});
 
-		proto::write_chunk(w, SoftSkinMeshChunkType::HEADER, [&](Write* wr) {
+		proto::write_chunk(w, SoftSkinMeshChunkType::NODES, [&](Write* wr) {
 			auto off_size = static_cast<ssize_t>(wr->tell());
 			wr->write_uint(0);
 
@@ -104,7 +104,7 @@ namespace zenkit {
 
 			auto off_end = static_cast<ssize_t>(wr->tell());
 			wr->seek(off_size, Whence::BEG);
-			wr->write_uint(off_end - off_size);
+			wr->write_uint(off_end - off_size - 4);
 			wr->seek(off_end, Whence::BEG);
 
 			wr->write_uint(this->wedge_normals.size());
-- 
2.43.0


From b7ea6133e9a717295cbae1a1c061f3d4c87a90e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:41 +0000
Subject: [PATCH 18/30] fix: model meshes are saved with a single attachment
 chunk and without the number of soft-skins

---
 src/ModelMesh.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index 47122c7..77c7d1a 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -90,14 +90,15 @@ namespace zenkit {
 			}
 		});
 
-		proto::write_chunk(w, ModelMeshChunkType::PROTO, [&](Write* wr) {
-			for (auto& [_, v] : this->attachments) {
-				v.save_to_section(wr, version);
-			}
-		});
+		for (auto& [_, v] : this->attachments) {
+			proto::write_chunk(w, ModelMeshChunkType::PROTO, [&mesh = v, version](Write* wr) {
+				mesh.save_to_section(wr, version);
+			});
+		}
 
 		proto::write_chunk(w, ModelMeshChunkType::SOFTSKINS, [&](Write* wr) {
 			wr->write_uint(this->checksum);
+			wr->write_ushort(this->meshes.size());
 
 			for (auto& msh : this->meshes) {
 				msh.save(wr, version);
-- 
2.43.0


From 2103f35a21426293c321bc95d9f3b2eec36660e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:22 +0000
Subject: [PATCH 19/30] fix: failures to map a file go unnoticed and leak its
 descriptor

---
 src/MmapPosix.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/MmapPosix.cc b/src/MmapPosix.cc
index f6d289c..4ba5073 100644
--- a/src/MmapPosix.cc
+++ b/src/MmapPosix.cc
@@ -17,15 +17,17 @@ namespace zenkit {
 
 		struct stat st {};
 		if (fstat(handle, &st) != 0) {
+			close(handle);
 			throw std::runtime_error {"Failed to stat " + path.string()};
 		}
 
-		_m_data =
-		    static_cast<std::byte*>(mmap(nullptr, static_cast<size_t>(st.st_size), PROT_READ, MAP_SHARED, handle, 0));
-		if (_m_data == nullptr) {
+		auto* data = mmap(nullptr, static_cast<size_t>(st.st_size), PROT_READ, MAP_SHARED, handle, 0);
+		if (data == MAP_FAILED) {
+			close(handle);
 			throw std::runtime_error {"Failed to mmap " + path.string()};
 		}
 
+		_m_data = static_cast<std::byte*>(data);
 		_m_size = static_cast<std::size_t>(st.st_size);
 		_m_platform_handle = (void*) _m_data;
 
-- 
2.43.0


From 24bab8f7c1a4b8838d7ae8fd6cb1eb15ee9fb1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:42 +0000
Subject: [PATCH 20/30] fix: assigning a file descriptor of the virtual file
 system shares its memory without counting the reference

---
 include/zenkit/Vfs.hh |  1 +
 src/Vfs.cc            | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/zenkit/Vfs.hh b/include/zenkit/Vfs.hh
index 2d326eb..8e5d133 100644
--- a/include/zenkit/Vfs.hh
+++ b/include/zenkit/Vfs.hh
@@ -44,6 +44,7 @@ namespace zenkit {
 
 		VfsFileDescriptor(std::byte const* mem, size_t len, bool del, bool zipped = false, size_t raw_size = 0);
 		VfsFileDescriptor(VfsFileDescriptor const& cpy);
+		VfsFileDescriptor& operator=(VfsFileDescriptor const& cpy);
 		~VfsFileDescriptor() noexcept;
 
 	private:
diff --git a/src/Vfs.cc b/src/Vfs.cc
index d96bfb1..ca3cb17 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -47,6 +47,17 @@ namespace zenkit {
 		*this->refcnt += 1;
 	}
 
+	VfsFileDescriptor& VfsFileDescriptor::operator=(VfsFileDescriptor const& cpy) {
+		// The copy takes over what this descriptor refers to and releases it at the end of the scope.
+		VfsFileDescriptor tmp {cpy};
+		std::swap(this->memory, tmp.memory);
+		std::swap(this->size, tmp.size);
+		std::swap(this->raw_size, tmp.raw_size);
+		std::swap(this->zipped, tmp.zipped);
+		std::swap(this->refcnt, tmp.refcnt);
+		return *this;
+	}
+
 	VfsFileDescriptor::~VfsFileDescriptor() noexcept {
 		if (this->refcnt == nullptr) return;
 		*this->refcnt -= 1;
-- 
2.43.0


From 23e74de7bf054e60854b21290131adbabb96ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:13 +0000
Subject: [PATCH 21/30] fix: elements of float members beyond the 255th are
 read from the wrong place

---
 src/DaedalusScript.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 49e5973..bc2683d 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -452,7 +452,7 @@ namespace zenkit {
 				return reinterpret_cast<DaedalusTransientInstance const&>(*context).get_float(*this, index);
 			}
 
-			return *get_member_ptr<float>(static_cast<uint8_t>(index), context);
+			return *get_member_ptr<float>(index, context);
 		}
 
 		return std::get<std::unique_ptr<float[]>>(_m_value)[index];
-- 
2.43.0


From ccc4cd0dee84445ac16d293c5ad9cf6c8d1e3ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:13 +0000
Subject: [PATCH 22/30] fix: very large lengths wrap around the bounds check of
 memory streams

---
 src/Stream.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Stream.cc b/src/Stream.cc
index efedbc2..133cfa7 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -264,7 +264,7 @@ namespace zenkit {
 			ReadMemory(std::byte const* byte, size_t len) : _m_bytes(byte), _m_length(len) {}
 
 			size_t read(void* buf, size_t len) noexcept override {
-				len = _m_position + len > _m_length ? _m_length - _m_position : len;
+				len = len > _m_length - _m_position ? _m_length - _m_position : len;
 				memcpy(buf, _m_bytes + _m_position, len);
 				_m_position += len;
 				return len;
@@ -371,7 +371,7 @@ namespace zenkit {
 			explicit WriteStatic(std::byte* buf, size_t len) : _m_bytes(buf), _m_length(len) {}
 
 			size_t write(void const* buf, size_t len) noexcept override {
-				len = _m_position + len > _m_length ? _m_length - _m_position : len;
+				len = len > _m_length - _m_position ? _m_length - _m_position : len;
 				memcpy(_m_bytes + _m_position, buf, len);
 				_m_position += len;
 				return len;
-- 
2.43.0


From 23155b3f3f06bb774d3e36d757d28cfff6a50c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:13 +0000
Subject: [PATCH 23/30] fix: catalogue entries whose end exceeds 32 bits pass
 the bounds check of disk archives

---
 src/Vfs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index ca3cb17..d8de52b 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -703,7 +703,7 @@ namespace zenkit {
 				    // For zipped VDFs, entry.Size is the uncompressed size; the actual
 				    // compressed data at e_offset is smaller. Only check offset validity.
 				    // For normal VDFs, the full extent must fit within the archive.
-				    if (zipped ? (e_offset >= size) : (e_offset + e_size > size)) {
+				    if (zipped ? (e_offset >= size) : (static_cast<std::uint64_t>(e_offset) + e_size > size)) {
 					    return last;
 				    }
 
-- 
2.43.0


From cb5ecac779f924289f3ea54a3c9ad64487536c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:13 +0000
Subject: [PATCH 24/30] fix: removing a path that leads through a file throws

---
 src/Vfs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index d8de52b..0c3fb3a 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -547,7 +547,7 @@ namespace zenkit {
 		auto childName = path.substr(lastSlash + 1);
 
 		VfsNode* pNode = this->resolve(parentPath);
-		if (pNode == nullptr) return false;
+		if (pNode == nullptr || pNode->type() != VfsNodeType::DIRECTORY) return false;
 		return pNode->remove(childName);
 	}
 
-- 
2.43.0


From 514f078396e8c7867a3eb32c3ec8706772a5233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:13 +0000
Subject: [PATCH 25/30] fix: passing an instance of an unregistered class to
 the host dereferences a null pointer

---
 include/zenkit/DaedalusVm.hh | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 17a81ee..1f9e993 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -790,8 +790,7 @@ namespace zenkit {
 					auto& expected = typeid(typename T::element_type);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {std::string {"Popping instance of unregistered type, expected "} + expected.name()};
 					}
 
 					if (*r->_m_type != expected) {
@@ -808,8 +807,7 @@ namespace zenkit {
 					auto& expected = typeid(std::remove_pointer_t<T>);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {std::string {"Popping instance of unregistered type, expected "} + expected.name()};
 					}
 
 					if (*r->_m_type != expected) {
@@ -970,8 +968,7 @@ namespace zenkit {
 					auto& expected = typeid(typename R::element_type);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {std::string {"Popping instance of unregistered type, expected "} + expected.name()};
 					}
 
 					if (*r->_m_type != expected) {
-- 
2.43.0


From 23d2f7cfc291a3ac1762ac7741287ec2832c4953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:13 +0000
Subject: [PATCH 26/30] fix: a cut-scene block without content dereferences a
 null pointer

---
 src/CutsceneLibrary.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index 1e3043d..fa4a792 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -80,6 +80,10 @@ namespace zenkit {
 		}
 
 		auto blk = r.read_object(version);
+		if (blk == nullptr) {
+			throw ParserError {"CutsceneLibrary", "missing block for " + this->name};
+		}
+
 		if (blk->get_object_type() == ObjectType::zCCSAtomicBlock) {
 			this->block = std::static_pointer_cast<CutsceneAtomicBlock>(blk);
 		} else if (blk->get_object_type() == ObjectType::zCCSBlock) {
-- 
2.43.0


From e3413079dd23daa1bff0c128bc45d314b2371940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:26 +0000
Subject: [PATCH 27/30] fix: sounds are saved with every property under the
 name of the volume

---
 src/vobs/Sound.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/vobs/Sound.cc b/src/vobs/Sound.cc
index d0e0712..10cc203 100644
--- a/src/vobs/Sound.cc
+++ b/src/vobs/Sound.cc
@@ -32,15 +32,15 @@ namespace zenkit {
 	void VSound::save(WriteArchive& w, GameVersion version) const {
 		VirtualObject::save(w, version);
 		w.write_float("sndVolume", this->volume);
-		w.write_enum("sndVolume", static_cast<std::uint32_t>(this->mode));
-		w.write_float("sndVolume", this->random_delay);
-		w.write_float("sndVolume", this->random_delay_var);
-		w.write_bool("sndVolume", this->initially_playing);
-		w.write_bool("sndVolume", this->ambient3d);
-		w.write_bool("sndVolume", this->obstruction);
-		w.write_float("sndVolume", this->cone_angle);
-		w.write_enum("sndVolume", static_cast<std::uint32_t>(this->volume_type));
-		w.write_float("sndVolume", this->radius);
+		w.write_enum("sndMode", static_cast<std::uint32_t>(this->mode));
+		w.write_float("sndRandDelay", this->random_delay);
+		w.write_float("sndRandDelayVar", this->random_delay_var);
+		w.write_bool("sndStartOn", this->initially_playing);
+		w.write_bool("sndAmbient3D", this->ambient3d);
+		w.write_bool("sndObstruction", this->obstruction);
+		w.write_float("sndConeAngle", this->cone_angle);
+		w.write_enum("sndVolType", static_cast<std::uint32_t>(this->volume_type));
+		w.write_float("sndRadius", this->radius);
 		w.write_string("sndName", this->sound_name);
 
 		if (w.is_save_game()) {
-- 
2.43.0


From 7326d6f30ea5adc14bb69e88d72f318b3ff7b52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:26 +0000
Subject: [PATCH 28/30] fix: movers are saved with several properties under the
 name of another

---
 src/vobs/Trigger.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vobs/Trigger.cc b/src/vobs/Trigger.cc
index 23f9c29..2ee6272 100644
--- a/src/vobs/Trigger.cc
+++ b/src/vobs/Trigger.cc
@@ -135,9 +135,9 @@ namespace zenkit {
 	void VMover::save(WriteArchive& w, GameVersion version) const {
 		VTrigger::save(w, version);
 		w.write_enum("moverBehavior", static_cast<std::uint32_t>(this->behavior));
-		w.write_float("autoLinkEnabled", this->touch_blocker_damage);
-		w.write_float("autoLinkEnabled", this->stay_open_time_sec);
-		w.write_bool("autoLinkEnabled", this->locked);
+		w.write_float("touchBlockerDamage", this->touch_blocker_damage);
+		w.write_float("stayOpenTimeSec", this->stay_open_time_sec);
+		w.write_bool("moverLocked", this->locked);
 		w.write_bool("autoLinkEnabled", this->auto_link);
 
 		if (version == GameVersion::GOTHIC_2) {
-- 
2.43.0


From 4c764e88426b6a1b3752158f228840fd5e8a2d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:26 +0000
Subject: [PATCH 29/30] fix: properties of sky controllers are saved without
 their names

---
 src/World.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/World.cc b/src/World.cc
index 0254bed..6f2b452 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -297,10 +297,10 @@ namespace zenkit {
 		w.write_float("dayCtr", day_ctr);
 
 		if (version == GameVersion::GOTHIC_2) {
-			w.write_float("", fade_scale);      // fadeScale
-			w.write_bool("", render_lightning); // renderLightning
-			w.write_bool("", is_raining);       // isRaining
-			w.write_int("", rain_ctr);          // rainCtr
+			w.write_float("fadeScale", fade_scale);
+			w.write_bool("renderLightning", render_lightning);
+			w.write_bool("isRaining", is_raining);
+			w.write_int("rainCtr", rain_ctr);
 		}
 	}
 } // namespace zenkit
-- 
2.43.0


From 4b0402480482c9b50bee6b6b861378c8b0fa3400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:26 +0000
Subject: [PATCH 30/30] fix: materials are saved with a misspelt name of the
 property lodDontCollapse

---
 src/Material.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Material.cc b/src/Material.cc
index 7b86d5e..a5aa266 100644
--- a/src/Material.cc
+++ b/src/Material.cc
@@ -103,7 +103,7 @@ namespace zenkit {
 
 		w.write_bool("noCollDet", this->disable_collision);
 		w.write_bool("noLightmap", this->disable_lightmap);
-		w.write_bool("losDontCollapse", this->dont_collapse);
+		w.write_bool("lodDontCollapse", this->dont_collapse);
 		w.write_string("detailObject", this->detail_object);
 
 		if (version == GameVersion::GOTHIC_2) {
-- 
2.43.0

