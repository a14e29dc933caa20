From 4f6f2e791e1d8e69be61555a6454eb656bcb2971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:31 +0000
Subject: [PATCH 01/63] fix: pb reader stores every chunk of a short read
 behind the previous one

---
 include/spb/pb/deserialize.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index d6e2525..01070b0 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -81,12 +81,14 @@ struct istream_reader
 
     void read_exact_or_throw(void *data, size_t data_size)
     {
+        auto *p_data = (uint8_t *)data;
         while (data_size > 0)
         {
-            auto chunk_size = read(data, data_size);
+            auto chunk_size = read(p_data, data_size);
             if (chunk_size == 0) [[unlikely]]
                 throw std::runtime_error("unexpected end of stream");
 
+            p_data += chunk_size;
             data_size -= chunk_size;
         }
     }
-- 
2.43.0


From 7c5fdcb1362313961b1f6d85d0b335ac67666a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:31 +0000
Subject: [PATCH 02/63] fix: validate UTF-8 of strings parsed from JSON

---
 include/spb/json/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 01879a1..6d02c04 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -529,7 +529,7 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
                 if (index != value.size()) [[unlikely]]
                     throw std::runtime_error("invalid string size");
             }
-            return;
+            break;
         }
         char utf8_buffer[4];
         auto utf8_size = unescape(stream, utf8_buffer);
-- 
2.43.0


From 4a2760e35de07b73f1f1c9cde7309d6d23751d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:31 +0000
Subject: [PATCH 03/63] fix: escape string keys of JSON maps

---
 include/spb/json/serialize.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index f5e3f57..c89053c 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -445,7 +445,11 @@ template <field_attributes attributes> void serialize(auto &stream, const spb::d
     {
         if constexpr (std::is_same_v<key_type, std::string_view> || std::is_same_v<key_type, std::string>)
         {
-            serialize_key(stream, map_key);
+            put_comma_if_needed(stream);
+
+            stream.write('"');
+            write_escaped(stream, map_key);
+            write_string(stream, R"(":)");
         }
         else
         {
-- 
2.43.0


From d443d88ba1bcdf068c046f860938f2892ffc315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:31 +0000
Subject: [PATCH 04/63] fix: serialize every oneof of a message, not only the
 first one that is set

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 10 +++++-----
 src/spb-proto-compiler/dumper/pb/dumper.cpp   |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 270faf9..abe2fa3 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -209,16 +209,16 @@ void dump_field_attributes(std::ostream &stream, const proto_file &file, const p
 void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, const proto_message &message,
                               const proto_oneof &oneof)
 {
-    stream << "\tconst auto index = value." << oneof.name.get_name() << ".index();\n";
-    stream << "\tswitch(index)\n\t{\n";
+    stream << "\t{\n\t\tconst auto index = value." << oneof.name.get_name() << ".index();\n";
+    stream << "\t\tswitch(index)\n\t\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\tcase " << i + 1 << ":\n\t\t\treturn serialize<";
+        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize<";
         dump_field_attributes(stream, file, message, oneof.fields[i]);
         stream << ">(stream, std::get<" << i + 1 << ">(value." << oneof.name.get_name() << "), \""
-               << json_field_name(oneof.fields[i]) << "\"sv);\n";
+               << json_field_name(oneof.fields[i]) << "\"sv);\n\t\t\t\tbreak;\n";
     }
-    stream << "\t}\n";
+    stream << "\t\t}\n\t}\n";
 }
 
 void dump_cpp_serialize_enum_gen(std::ostream &stream, const proto_enum &my_enum, std::string_view full_name)
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index a4814aa..38b65a7 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -212,10 +212,10 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\t\tswitch (index)\n\t\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\treturn serialize<";
+        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize<";
         dump_serialize_mode(stream, file, message, oneof.fields[i]);
         stream << ">(stream, " << oneof.fields[i].number << ", std::get<" << i + 1 << ">(value."
-               << oneof.name.get_name() << "));\n";
+               << oneof.name.get_name() << "));\n\t\t\t\tbreak;\n";
     }
     stream << "\t\t}\n\t}\n\n";
 }
-- 
2.43.0


From 30721c7e5ce3ebe7f4c1fc12a986cbe6baa10a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:00 +0000
Subject: [PATCH 05/63] fix: check the wire type of repeated scalar fields
 before decoding them

---
 include/spb/pb/deserialize.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 01070b0..9bd2254 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -601,7 +601,11 @@ void deserialize(auto &stream, Container &value, wire_type type)
 {
     if constexpr (is_packed(mode.encoder))
     {
-        deserialize_packed<mode>(stream, value);
+        if (type == wire_type::length_delimited) [[likely]]
+            deserialize_packed<mode>(stream, value);
+        else
+            //- parsers have to accept also the not packed form of packed fields
+            deserialize<reset_packed(mode)>(stream, value, type);
     }
     else
     {
@@ -610,6 +614,7 @@ void deserialize(auto &stream, Container &value, wire_type type)
 
         if constexpr (std::is_same_v<typename Container::value_type, bool>)
         {
+            check_wire_type_or_throw(type, wire_type::varint);
             value.emplace_back(read_varint<bool>(stream));
         }
         else
-- 
2.43.0


From 17e030d4efa734211bc750674d87fa0d6dc44ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:35 +0000
Subject: [PATCH 06/63] fix: a key or value missing in a protobuf map item has
 its default value

---
 include/spb/pb/deserialize.hpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 9bd2254..e34d72c 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -636,9 +636,8 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
 
     check_wire_type_or_throw(type, wire_type::length_delimited);
 
-    auto pair          = std::pair<key_type, mapped_type>();
-    auto key_defined   = false;
-    auto value_defined = false;
+    //- a key or a value missing in the map item has its default value
+    auto pair = std::pair<key_type, mapped_type>();
     while (!stream.empty())
     {
         const auto tag          = tag_type(read_varint<uint32_t>(stream));
@@ -668,7 +667,6 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
                     deserialize<key_encoder>(stream, pair.first, field_type);
                 }
             }
-            key_defined = true;
             break;
         case 2:
             if constexpr (spb::detail::proto_field_number<mapped_type>)
@@ -689,20 +687,12 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
                     throw std::runtime_error("invalid field");
                 }
             }
-            value_defined = true;
             break;
         default:
             throw std::runtime_error("invalid field");
         }
     }
-    if (key_defined && value_defined) [[likely]]
-    {
-        value.insert(std::move(pair));
-    }
-    else [[unlikely]]
-    {
-        throw std::runtime_error("invalid map item");
-    }
+    value.insert(std::move(pair));
 }
 
 template <serialize_mode mode, size_t ordinal, typename T>
-- 
2.43.0


From 6fba7d99cbde3bf12222066675120167d0e64d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:36 +0000
Subject: [PATCH 07/63] fix: the last map item with the same key wins

---
 include/spb/json/deserialize.hpp | 3 ++-
 include/spb/pb/deserialize.hpp   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 6d02c04..82728b5 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -704,7 +704,8 @@ template <field_attributes attributes> void deserialize(auto &stream, spb::detai
 
         auto map_value = mapped_type();
         deserialize<attributes>(stream, map_value);
-        value.emplace(std::move(map_key), std::move(map_value));
+        //- the last item with the same key wins
+        value[std::move(map_key)] = std::move(map_value);
     } while (stream.consume_and_skip_white_space(','));
 
     if (!stream.consume_and_skip_white_space('}')) [[unlikely]]
diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index e34d72c..c8a1c45 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -692,7 +692,8 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
             throw std::runtime_error("invalid field");
         }
     }
-    value.insert(std::move(pair));
+    //- the last item with the same key wins
+    value[std::move(pair.first)] = std::move(pair.second);
 }
 
 template <serialize_mode mode, size_t ordinal, typename T>
-- 
2.43.0


From 6deee00d896233170efc8f2bb27985b001dd4991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:40 +0000
Subject: [PATCH 08/63] fix: pb keeps the presence of empty strings, bytes and
 messages

---
 include/spb/pb/serialize.hpp                | 25 ++++++++++++++++-----
 src/spb-proto-compiler/dumper/pb/dumper.cpp |  2 +-
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/spb/pb/serialize.hpp b/include/spb/pb/serialize.hpp
index aaf2297..c00cea4 100644
--- a/include/spb/pb/serialize.hpp
+++ b/include/spb/pb/serialize.hpp
@@ -299,6 +299,22 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_map auto &
     }
 }
 
+//- value with presence (optional, oneof or an item of repeated) is serialized even if it is empty
+template <serialize_mode mode> void serialize_present(auto &stream, uint32_t field, const auto &value)
+{
+    using T = std::remove_cvref_t<decltype(value)>;
+
+    if constexpr (spb::detail::proto_field_string<T> || spb::detail::proto_field_bytes<T>)
+    {
+        if (value.empty())
+        {
+            serialize_tag(stream, field, wire_type::length_delimited);
+            return serialize_varint(stream, 0);
+        }
+    }
+    serialize<mode>(stream, field, value);
+}
+
 template <serialize_mode mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_label_repeated auto &container)
 {
@@ -325,7 +341,7 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_label_repe
             if constexpr (std::is_same_v<value_type, bool>)
                 serialize<mode>(stream, field, bool(value));
             else
-                serialize<mode>(stream, field, value);
+                serialize_present<mode>(stream, field, value);
         }
     }
 }
@@ -346,23 +362,20 @@ template <serialize_mode mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_label_optional auto &p_value)
 {
     if (p_value.has_value())
-        serialize<mode>(stream, field, *p_value);
+        serialize_present<mode>(stream, field, *p_value);
 }
 
 template <serialize_mode mode, typename T>
 void serialize(auto &stream, uint32_t field, const std::unique_ptr<T> &p_value)
 {
     if (p_value)
-        serialize<mode>(stream, field, *p_value);
+        serialize_present<mode>(stream, field, *p_value);
 }
 
 template <serialize_mode mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_message auto &value)
 {
     const auto size = serialize_size<mode>(value);
-    if (!size) [[unlikely]]
-        return;
-
     serialize_tag(stream, field, wire_type::length_delimited);
     serialize_varint(stream, size);
     serialize_value(stream, value);
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index 38b65a7..0625f43 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -212,7 +212,7 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\t\tswitch (index)\n\t\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize<";
+        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize_present<";
         dump_serialize_mode(stream, file, message, oneof.fields[i]);
         stream << ">(stream, " << oneof.fields[i].number << ", std::get<" << i + 1 << ">(value."
                << oneof.name.get_name() << "));\n\t\t\t\tbreak;\n";
-- 
2.43.0


From 9e56b8f46e192779aa2fe03723c8be6b25953d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:32 +0000
Subject: [PATCH 09/63] fix: JSON keeps the presence of empty values of
 optional and oneof fields

---
 include/spb/json/serialize.hpp                | 12 ++++++++++--
 src/spb-proto-compiler/dumper/json/dumper.cpp |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index c89053c..f5d237f 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -475,11 +475,19 @@ void serialize(auto &stream, const spb::detail::proto_label_optional auto &p_val
         return serialize<attributes>(stream, *p_value);
 }
 
+//- value with presence (optional or oneof) is serialized even if it is empty
+template <field_attributes attributes>
+void serialize_present(auto &stream, const auto &value, std::string_view field)
+{
+    serialize_key(stream, field);
+    serialize<attributes>(stream, value);
+}
+
 template <field_attributes attributes>
 void serialize(auto &stream, const spb::detail::proto_label_optional auto &p_value, std::string_view field)
 {
     if (p_value.has_value())
-        return serialize<attributes>(stream, *p_value, field);
+        return serialize_present<attributes>(stream, *p_value, field);
 }
 
 template <field_attributes attributes, typename T>
@@ -493,7 +501,7 @@ template <field_attributes attributes, typename T>
 void serialize(auto &stream, const std::unique_ptr<T> &p_value, std::string_view field)
 {
     if (p_value)
-        return serialize<attributes>(stream, *p_value, field);
+        return serialize_present<attributes>(stream, *p_value, field);
 }
 
 template <field_attributes> void serialize(auto &stream, const spb::detail::proto_message auto &value)
diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index abe2fa3..d9c418e 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -213,7 +213,7 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\t\tswitch(index)\n\t\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize<";
+        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize_present<";
         dump_field_attributes(stream, file, message, oneof.fields[i]);
         stream << ">(stream, std::get<" << i + 1 << ">(value." << oneof.name.get_name() << "), \""
                << json_field_name(oneof.fields[i]) << "\"sv);\n\t\t\t\tbreak;\n";
-- 
2.43.0


From e7c3c9dbb5f2c03169abac04ee9a98d651f4ef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 10/63] fix: sprotoc honours the documented nanopb max_count
 option

---
 src/spb-proto-compiler/ast/ast-options.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-options.cpp b/src/spb-proto-compiler/ast/ast-options.cpp
index 259c89d..7f869ae 100644
--- a/src/spb-proto-compiler/ast/ast-options.cpp
+++ b/src/spb-proto-compiler/ast/ast-options.cpp
@@ -115,6 +115,9 @@ void convert_nanopb_options(const proto_file &file, proto_attributes &attributes
 
     if (auto value = option_value_int<uint32_t>(file, {opt_value, "max_length"}, options); value.has_value())
         attributes.max_size = *value + 1;
+
+    if (auto value = option_value_int<uint32_t>(file, {opt_value, "max_count"}, options); value.has_value())
+        attributes.max_count = *value;
 }
 
 void convert_nanopb_options(const proto_file &file, proto_attributes &attributes,
-- 
2.43.0


From 3641c235fcb57761ad71ee09e2b576724328ef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 11/63] fix: sprotoc honours the options of oneof fields

---
 src/spb-proto-compiler/ast/ast-options.cpp    | 8 ++++++++
 src/spb-proto-compiler/dumper/json/dumper.cpp | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-options.cpp b/src/spb-proto-compiler/ast/ast-options.cpp
index 7f869ae..fddcc96 100644
--- a/src/spb-proto-compiler/ast/ast-options.cpp
+++ b/src/spb-proto-compiler/ast/ast-options.cpp
@@ -292,6 +292,14 @@ void resolve_options(proto_file &file, proto_message &message)
         convert_options(file, map.attributes, map.options, option_type::option_field, true);
         convert_options(file, message.attributes, map.options, option_type::option_message, false);
     }
+    for (auto &oneof : message.oneofs)
+    {
+        for (auto &field : oneof.fields)
+        {
+            convert_options(file, field.attributes, field.options, option_type::option_field, true);
+            convert_options(file, message.attributes, field.options, option_type::option_message, false);
+        }
+    }
     for (auto &sub_message : message.messages)
     {
         resolve_options(file, sub_message);
diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index d9c418e..2b39bd0 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -443,6 +443,7 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
             name_map.emplace(spb::json::detail::djb2_hash(field_name), one_field{
                                                                            .parsed_name = field_name,
                                                                            .name        = oneof.name,
+                                                                           .attributes  = oneof.fields[i].attributes,
                                                                            .oneof_index = i,
                                                                        });
             if (field_name != oneof.fields[i].name.proto_name)
@@ -454,6 +455,7 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
                                  one_field{
                                      .parsed_name = std::string(oneof.fields[i].name.proto_name),
                                      .name        = oneof.name,
+                                     .attributes  = oneof.fields[i].attributes,
                                      .oneof_index = i,
                                  });
             }
-- 
2.43.0


From a55d1c4b22294145319d7471c167570d4b74c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 12/63] fix: JSON skips unknown fields of a message without
 fields

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 2b39bd0..4207625 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -367,8 +367,8 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
 {
     if (message.fields.empty() && message.maps.empty() && message.oneofs.empty())
     {
-        stream << "void deserialize_value_gen(auto &, " << full_name << " &)\n{\n";
-        stream << "\n}\n\n";
+        stream << "void deserialize_value_gen(auto &stream, " << full_name << " &)\n{\n";
+        stream << "\tignore_key_and_value(stream);\n}\n\n";
         return;
     }
 
-- 
2.43.0


From a2786fb46ea33fc77b0b69f9f204d69125f126ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 13/63] fix: an exception of the user reader has to pass
 through the JSON reader

---
 include/spb/json/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 82728b5..de1e97e 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -305,7 +305,7 @@ struct istream_reader
         return result;
     }
 
-    void consume_current_char(bool skip_white_space) noexcept
+    void consume_current_char(bool skip_white_space)
     {
         consume_bytes(1);
         if (skip_white_space)
-- 
2.43.0


From 4d8e84fbf7060d0d86b8b6742f44c6fd9338348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 14/63] fix: JSON reader checks the char right behind
 true/false/null

---
 include/spb/json/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index de1e97e..2edd3ee 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -255,7 +255,7 @@ struct istream_reader
         if (token_view.size() == token.size()) [[unlikely]]
             return true;
 
-        const auto char_behind_token = token_view.back();
+        const auto char_behind_token = token_view[token.size()];
         if (!isalnum(char_behind_token) && char_behind_token != '_')
         {
             skip(token.size());
-- 
2.43.0


From e277ecd63ec4989a870054019dc536681442a00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 15/63] fix: JSON consumes true/false/null at the end of the
 stream

---
 include/spb/json/deserialize.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 2edd3ee..35a00ff 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -148,7 +148,10 @@ struct istream_buffer
             return false;
 
         if (size() == token.size()) [[unlikely]]
+        {
+            skip(token.size());
             return true;
+        }
 
         const auto char_behind_token = p_start[token.size()];
         if (!isalnum(char_behind_token) && char_behind_token != '_')
@@ -253,7 +256,10 @@ struct istream_reader
             return false;
 
         if (token_view.size() == token.size()) [[unlikely]]
+        {
+            skip(token.size());
             return true;
+        }
 
         const auto char_behind_token = token_view[token.size()];
         if (!isalnum(char_behind_token) && char_behind_token != '_')
-- 
2.43.0


From 9be6384eb795e03a3694fe155a369287bf169e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 16/63] fix: JSON accepts white space around every token

---
 include/spb/json.hpp             |  2 ++
 include/spb/json/base64.h        |  1 +
 include/spb/json/deserialize.hpp | 36 +++++++++++---------------------
 3 files changed, 15 insertions(+), 24 deletions(-)

diff --git a/include/spb/json.hpp b/include/spb/json.hpp
index 6fcada2..c77cb90 100644
--- a/include/spb/json.hpp
+++ b/include/spb/json.hpp
@@ -94,6 +94,7 @@ template <spb::resizable_container Container = std::string>
 size_t deserialize(auto &message, const void *buffer, size_t size)
 {
     detail::istream_buffer stream((const uint8_t *)buffer, size);
+    stream.skip_white_spaces();
     deserialize<detail::field_attributes{}>(stream, message);
     return size - stream.size();
 }
@@ -109,6 +110,7 @@ size_t deserialize(auto &message, const void *buffer, size_t size)
 size_t deserialize(auto &message, spb::io::reader reader)
 {
     detail::istream_reader stream{reader};
+    stream.skip_white_spaces();
     deserialize<detail::field_attributes{}>(stream, message);
     return stream.consumed_size();
 }
diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index 92a692e..a768cca 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -198,6 +198,7 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
             {
                 *p_out++ = std::byte((v0 << 2) | (v1 >> 4));
             }
+            stream.skip_white_spaces();
             return;
         }
     }
diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 35a00ff..f748a07 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -154,19 +154,12 @@ struct istream_buffer
         }
 
         const auto char_behind_token = p_start[token.size()];
-        if (!isalnum(char_behind_token) && char_behind_token != '_')
-        {
-            skip(token.size());
-            return true;
-        }
+        if (isalnum(char_behind_token) || char_behind_token == '_')
+            return false;
 
-        if (isspace(char_behind_token))
-        {
-            skip(token.size());
-            skip_white_spaces();
-            return true;
-        }
-        return false;
+        skip(token.size());
+        skip_white_spaces();
+        return true;
     }
     [[nodiscard]] int current_char() const
     {
@@ -262,19 +255,12 @@ struct istream_reader
         }
 
         const auto char_behind_token = token_view[token.size()];
-        if (!isalnum(char_behind_token) && char_behind_token != '_')
-        {
-            skip(token.size());
-            return true;
-        }
+        if (isalnum(char_behind_token) || char_behind_token == '_')
+            return false;
 
-        if (isspace(char_behind_token))
-        {
-            skip(token.size());
-            skip_white_spaces();
-            return true;
-        }
-        return false;
+        skip(token.size());
+        skip_white_spaces();
+        return true;
     }
 
     void skip_white_spaces()
@@ -542,6 +528,7 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
         append_to_value(utf8_buffer, utf8_size);
     }
     spb::detail::utf8::validate(std::string_view(value.data(), value.size()));
+    stream.skip_white_spaces();
 }
 
 template <field_attributes> void deserialize(auto &stream, spb::detail::proto_field_int_or_float auto &value)
@@ -564,6 +551,7 @@ template <field_attributes> void deserialize(auto &stream, spb::detail::proto_fi
         throw std::runtime_error("invalid number");
 
     stream.skip(result.ptr - view.data());
+    stream.skip_white_spaces();
 }
 
 template <field_attributes> void deserialize(auto &stream, bool &value)
-- 
2.43.0


From 8b983069e8460bfc9d2e4d83511d379415a3cd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 17/63] fix: JSON skips a too long key with an escape sequence
 at its size limit

---
 include/spb/json/deserialize.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index f748a07..e9958a8 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -375,6 +375,12 @@ auto deserialize_string_to_buffer(auto &stream, size_t min_size, size_t max_size
         if (pos == view.npos) [[unlikely]]
         {
             stream.skip(view.size());
+            if (start > view.size())
+            {
+                //- the view ends with '\', skip also the escaped char
+                (void)stream.view(1, 1);
+                stream.skip(1);
+            }
             break;
         }
 
-- 
2.43.0


From bdbacb9c6c54b984ed5d34e673588f417886583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 18/63] fix: JSON rejects garbage behind a number used as a map
 key

---
 include/spb/json/deserialize.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index e9958a8..8a4d38b 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -674,6 +674,8 @@ template <field_attributes attributes, typename T> void deserialize_map_key(auto
         auto str_key_map = deserialize_string_to_buffer(stream, 1, 128, buffer);
         auto key_stream  = istream_buffer(str_key_map.data(), str_key_map.size());
         deserialize<attributes>(key_stream, map_key);
+        if (!key_stream.empty()) [[unlikely]]
+            throw std::runtime_error("invalid map key");
     }
 }
 
-- 
2.43.0


From 9478432b458acc8090090d1e540487300a3cd267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 19/63] fix: JSON does not loop forever on bytes without the
 closing quote

---
 include/spb/json/base64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index a768cca..5850d2d 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -102,7 +102,7 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
         auto view      = stream.view(1, UINT32_MAX);
         auto length    = view.find('"');
         auto end_found = length < view.npos;
-        if ((end_found && length % 4 != 0) || view.size() <= 4) [[unlikely]]
+        if ((end_found && length % 4 != 0) || view.size() <= 4 || (!end_found && view.size() < 8)) [[unlikely]]
             throw std::runtime_error("invalid base64");
 
         length = std::min(length, view.size());
-- 
2.43.0


From e6bec097b183ba7ef1f84df35f0172df6d58a390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 20/63] fix: sprotoc reports an error when the generated files
 can not be written

---
 src/spb-proto-compiler/main.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/main.cpp b/src/spb-proto-compiler/main.cpp
index 1deb7eb..3350097 100644
--- a/src/spb-proto-compiler/main.cpp
+++ b/src/spb-proto-compiler/main.cpp
@@ -16,6 +16,7 @@
 #include <filesystem>
 #include <fstream>
 #include <iostream>
+#include <stdexcept>
 #include <vector>
 
 namespace
@@ -69,6 +70,13 @@ auto get_relative_output_dir(const fs::path &input_file, std::span<const fs::pat
     return {};
 }
 
+void close_or_throw(std::ofstream &stream, const fs::path &file_path)
+{
+    stream.close();
+    if (stream.fail())
+        throw std::runtime_error(file_path.string() + ": write failed");
+}
+
 void process_file(const fs::path &input_file, std::span<const fs::path> import_paths,
                   const fs::path &output_dir)
 {
@@ -78,11 +86,15 @@ void process_file(const fs::path &input_file, std::span<const fs::path> import_p
     const auto rel_output_dir = get_relative_output_dir(input_file, import_paths);
 
     fs::create_directories(output_dir / rel_output_dir);
-    auto cpp_header_stream = std::ofstream(output_dir / rel_output_dir / output_cpp_header);
+    const auto cpp_header_path = output_dir / rel_output_dir / output_cpp_header;
+    auto cpp_header_stream = std::ofstream(cpp_header_path);
     dump_cpp_header(parsed_file, cpp_header_stream);
+    close_or_throw(cpp_header_stream, cpp_header_path);
 
-    auto cpp_stream = std::ofstream(output_dir / rel_output_dir / output_cpp);
+    const auto cpp_path = output_dir / rel_output_dir / output_cpp;
+    auto cpp_stream = std::ofstream(cpp_path);
     dump_cpp(parsed_file, rel_output_dir / output_cpp_header, cpp_stream);
+    close_or_throw(cpp_stream, cpp_path);
 }
 
 } // namespace
-- 
2.43.0


From 36bd7b71f71e2a3aac0642a557f97db6dc58d5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 21/63] fix: sprotoc does not take the start of an identifier
 with '_' for a keyword

---
 src/spb-proto-compiler/parser/char_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/parser/char_stream.h b/src/spb-proto-compiler/parser/char_stream.h
index 9ae8e89..7d77789 100644
--- a/src/spb-proto-compiler/parser/char_stream.h
+++ b/src/spb-proto-compiler/parser/char_stream.h
@@ -107,7 +107,7 @@ struct char_stream
             p_begin += token.size();
             update_current(false);
             auto next = current_char();
-            if (isspace(next) || !isalnum(next))
+            if (!isalnum(next) && next != '_')
             {
                 update_current(true);
                 return true;
-- 
2.43.0


From bfb2a6568795a8acae8fcf501725096e7ea04109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 22/63] fix: JSON uses the .proto name of enum values named as
 C++ keywords

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 4207625..9cacbec 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -240,7 +240,7 @@ void dump_cpp_serialize_enum_gen(std::ostream &stream, const proto_enum &my_enum
             continue;
 
         stream << "\tcase " << full_name << "::" << field.name.get_name()
-               << ":\n\t\treturn serialize_enum(stream, \"" << field.name.get_name() << "\"sv);\n";
+               << ":\n\t\treturn serialize_enum(stream, \"" << field.name.proto_name << "\"sv);\n";
     }
     stream << "\tdefault:\n\t\tthrow std::system_error(std::make_error_code("
               "std::errc::invalid_argument));\n";
@@ -260,12 +260,12 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
     size_t key_size_min = UINT32_MAX;
     size_t key_size_max = 0;
 
-    auto name_map = std::multimap<uint32_t, std::string_view>();
+    auto name_map = std::multimap<uint32_t, const cpp_ident *>();
     for (const auto &field : my_enum.fields)
     {
-        name_map.emplace(spb::json::detail::djb2_hash(field.name.get_name()), field.name.get_name());
-        key_size_min = std::min(key_size_min, field.name.get_name().size());
-        key_size_max = std::max(key_size_max, field.name.get_name().size());
+        name_map.emplace(spb::json::detail::djb2_hash(field.name.proto_name), &field.name);
+        key_size_min = std::min(key_size_min, field.name.proto_name.size());
+        key_size_max = std::max(key_size_max, field.name.proto_name.size());
     }
 
     stream << "void deserialize_value_gen(auto &stream, " << full_name << " & value)\n{\n";
@@ -286,10 +286,10 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
                 stream << "\t\t\t\tbreak;\n";
 
             put_break = true;
-            stream << "\t\t\tcase detail::djb2_hash(\"" << name << "\"sv):\n";
+            stream << "\t\t\tcase detail::djb2_hash(\"" << name->proto_name << "\"sv):\n";
         }
-        stream << "\t\t\t\tif (enum_str == \"" << name << "\"sv)\n\t\t\t\t{\n\t\t\t\t\tvalue = " << full_name
-               << "::" << name << ";\n\t\t\t\t\treturn ;\n\t\t\t\t}\n";
+        stream << "\t\t\t\tif (enum_str == \"" << name->proto_name
+               << "\"sv)\n\t\t\t\t{\n\t\t\t\t\tvalue = " << full_name << "::" << name->get_name() << ";\n\t\t\t\t\treturn ;\n\t\t\t\t}\n";
     }
     stream << "\t\t\t\tbreak ;\n";
     stream << "\t\t\t}\n\t\t\tthrow std::system_error(std::make_error_code("
-- 
2.43.0


From 01e2358dc974c9fa0d73f4cc1b21406c37317a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 23/63] fix: values of 64-bit wide bitfields are accepted

---
 include/spb/bits.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/spb/bits.h b/include/spb/bits.h
index 60bdc48..e405eba 100644
--- a/include/spb/bits.h
+++ b/include/spb/bits.h
@@ -27,8 +27,8 @@ static inline void check_if_value_fit_in_bits(signed_int auto value, uint32_t bi
     assert(sizeof(value) * CHAR_BIT >= bits);
     assert(bits > 0);
 
-    decltype(value) max = (1LL << (bits - 1)) - 1;
-    decltype(value) min = -(1LL << (bits - 1));
+    const auto max = (decltype(value))((1ULL << (bits - 1)) - 1);
+    const auto min = (decltype(value))(-max - 1);
 
     if ((value < min) | (value > max)) [[unlikely]]
         throw std::runtime_error("bitfield overflow");
@@ -37,8 +37,9 @@ static inline void check_if_value_fit_in_bits(signed_int auto value, uint32_t bi
 static inline void check_if_value_fit_in_bits(unsigned_int auto value, uint32_t bits)
 {
     assert(sizeof(value) * CHAR_BIT >= bits);
+    assert(bits > 0);
 
-    decltype(value) max = (1LL << bits) - 1;
+    const auto max = (decltype(value))(~0ULL >> (sizeof(~0ULL) * CHAR_BIT - bits));
 
     if (value > max) [[unlikely]]
         throw std::runtime_error("bitfield overflow");
-- 
2.43.0


From 9221511b4e8495e2313a78335cf5de66c495c6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 24/63] fix: sprotoc forward declares messages named as C++
 keywords by their C++ name

---
 src/spb-proto-compiler/ast/ast-messages-order.cpp | 2 +-
 src/spb-proto-compiler/ast/proto-message.h        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-messages-order.cpp b/src/spb-proto-compiler/ast/ast-messages-order.cpp
index 7b68b9b..c101363 100644
--- a/src/spb-proto-compiler/ast/ast-messages-order.cpp
+++ b/src/spb-proto-compiler/ast/ast-messages-order.cpp
@@ -186,7 +186,7 @@ auto is_forwarded(search_ctx &ctx, proto_field &field, size_t type_part) -> bool
             [[fallthrough]];
         case proto_field::Label::REPEATED:
         case proto_field::Label::PTR:
-            ctx.p_parent->message.forwards.insert(message.name.proto_name);
+            ctx.p_parent->message.forwards.emplace(message.name.get_name());
             return true;
         }
     }
diff --git a/src/spb-proto-compiler/ast/proto-message.h b/src/spb-proto-compiler/ast/proto-message.h
index 10688f7..f40f326 100644
--- a/src/spb-proto-compiler/ast/proto-message.h
+++ b/src/spb-proto-compiler/ast/proto-message.h
@@ -17,12 +17,12 @@
 #include "proto-map.h"
 #include "proto-oneof.h"
 #include <set>
-#include <string_view>
+#include <string>
 #include <vector>
 
 struct proto_message;
 using proto_messages         = std::vector<proto_message>;
-using forwarded_declarations = std::set<std::string_view>;
+using forwarded_declarations = std::set<std::string>;
 
 struct proto_message : public proto_base
 {
-- 
2.43.0


From 43a20a59c45b09f5c3c67d4e4ec535fd1606c861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 25/63] fix: UTF-8 validation does not read in front of a short
 string

---
 include/spb/utf8.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/spb/utf8.h b/include/spb/utf8.h
index 88c2460..681132e 100644
--- a/include/spb/utf8.h
+++ b/include/spb/utf8.h
@@ -13,6 +13,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <cstring>
 #include <stdexcept>
 #include <string_view>
 
@@ -108,18 +109,18 @@ inline bool is_valid(std::string_view str)
     constexpr size_t mask = (size_t)0x8080808080808080ULL;
 
     const auto *start = str.data();
-    const auto *end   = str.data() + str.size() - sizeof(size_t);
+    const auto *end   = str.data() + str.size();
 
-    while (start <= end)
+    while (size_t(end - start) >= sizeof(size_t))
     {
-        const size_t value = *(size_t *)start;
+        size_t value;
+        memcpy(&value, start, sizeof(value));
         if ((value & mask) == 0) [[likely]]
             start += sizeof(value);
         else
             break;
     }
 
-    end            = str.data() + str.size();
     uint32_t state = ok;
     for (uint32_t codepoint; start < end; ++start)
     {
-- 
2.43.0


From 7c819f045576290c4727c2d547a21d525ed2ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 26/63] fix: pb rejects tags over 32 bits

---
 include/spb/pb/deserialize.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index c8a1c45..5b42fe8 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -230,17 +230,20 @@ void check_if_empty_or_throw(auto &stream)
         return tag_type::invalid;
 
     auto byte = (uint8_t)(byte_or_eof);
-    auto tag  = (uint32_t)(byte & 0x7F);
+    auto tag  = (uint64_t)(byte & 0x7F);
 
     for (size_t shift = CHAR_BIT - 1; (byte & 0x80) != 0; shift += CHAR_BIT - 1)
     {
-        if (shift >= sizeof(tag) * CHAR_BIT) [[unlikely]]
+        if (shift >= sizeof(tag_type) * CHAR_BIT) [[unlikely]]
             throw std::runtime_error("invalid tag");
 
         byte = stream.read_byte_or_throw();
         tag |= uint64_t(byte & 0x7F) << shift;
     }
 
+    if (tag > std::numeric_limits<uint32_t>::max()) [[unlikely]]
+        throw std::runtime_error("invalid tag");
+
     const auto result = tag_type(tag);
     check_tag_or_throw(result);
     return result;
-- 
2.43.0


From f24d51988b093c4cb8165920472de05e0002615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:00 +0000
Subject: [PATCH 27/63] fix: pb rejects a delimited message truncated by the
 reader

---
 include/spb/pb.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/spb/pb.hpp b/include/spb/pb.hpp
index 2aecf5c..8fd2d7e 100644
--- a/include/spb/pb.hpp
+++ b/include/spb/pb.hpp
@@ -159,6 +159,7 @@ size_t deserialize(auto &message, spb::io::reader reader, const deserialize_opti
         const auto substream_length = read_varint<uint32_t>(stream);
         auto substream              = stream.sub_stream(substream_length);
         deserialize<detail::serialize_mode{}>(substream, message);
+        check_if_empty_or_throw(substream);
     }
     else
     {
-- 
2.43.0


From 7156e7c84d19f392cf6a4ea5f73dcf2ac658dd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:55 +0000
Subject: [PATCH 28/63] fix: pb rejects a varint that does not fit in int8 or
 int16

---
 include/spb/pb/deserialize.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 5b42fe8..7e1dfe7 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -279,12 +279,13 @@ template <typename T> [[nodiscard]] auto read_varint(auto &stream) -> T
                     //- so int32_t(-2) is encoded as "\xfe\xff\xff\xff\xff\xff\xff\xff\xff\x01",
                     // same as int64_t(-2)
                     //- but it should be encoded as  "\xfe\xff\xff\xff\x0f"
-                    value = T(value);
+                    if (sizeof(T) == sizeof(int32_t) || value <= std::numeric_limits<uint32_t>::max())
+                        value = int32_t(value);
                 }
                 auto result = T(value);
                 if constexpr (std::is_signed_v<T>)
                 {
-                    if (result == std::make_signed_t<T>(value)) [[likely]]
+                    if (result == int64_t(value)) [[likely]]
                         return result;
                 }
                 else
-- 
2.43.0


From 0865e08795aeda5cbd0878779ac725462b60cba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:09 +0000
Subject: [PATCH 29/63] fix: pb accepts the packed form of not packed repeated
 fields

---
 include/spb/pb/deserialize.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 7e1dfe7..09edb97 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -550,8 +550,6 @@ void deserialize(auto &stream, spb::detail::proto_field_bytes auto &value, wire_
 template <serialize_mode mode, spb::detail::proto_label_repeated Container>
 void deserialize_packed(auto &stream, Container &value)
 {
-    static_assert(is_packed(mode.encoder));
-
     while (!stream.empty())
     {
         if constexpr (mode.max_count)
@@ -613,6 +611,13 @@ void deserialize(auto &stream, Container &value, wire_type type)
     }
     else
     {
+        if constexpr (spb::detail::proto_field_number<typename Container::value_type>)
+        {
+            //- parsers have to accept also the packed form of not packed fields
+            if (type == wire_type::length_delimited)
+                return deserialize_packed<mode>(stream, value);
+        }
+
         if constexpr (mode.max_count)
             check_size(value.size() + 1, mode.max_count);
 
-- 
2.43.0


From 37e4ba9268fb6df733dac9377210c1d44ed5939e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:07 +0000
Subject: [PATCH 30/63] fix: pb skips unknown fields of map items

---
 include/spb/pb/deserialize.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 09edb97..b3daac5 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -698,7 +698,16 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
             }
             break;
         default:
-            throw std::runtime_error("invalid field");
+            if (field_type == wire_type::length_delimited)
+            {
+                const auto size = read_varint<uint32_t>(stream);
+                auto substream  = stream.sub_stream(size);
+                skip(substream, field_type);
+            }
+            else
+            {
+                skip(stream, field_type);
+            }
         }
     }
     //- the last item with the same key wins
-- 
2.43.0


From ae2dce5acc3cab9d25e375e825a5cdb0d6286200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:21 +0000
Subject: [PATCH 31/63] fix: json unescapes object keys and enum names

---
 include/spb/json/deserialize.hpp | 52 ++++++++++++++++----------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 8a4d38b..86f74c5 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -361,43 +361,43 @@ void ignore_string(auto &stream)
 auto deserialize_string_to_buffer(auto &stream, size_t min_size, size_t max_size, char *buffer)
     -> std::string_view
 {
-    assert(max_size < io::buffered_reader::BUFFER_SIZE);
-
     if (!stream.consume('"')) [[unlikely]]
         throw std::runtime_error(R"(expecting '"')");
 
-    // +1 for "
-    auto view    = stream.view(1, max_size + 1);
-    size_t start = 0;
+    //- size of the unescaped string, greater than max_size when the string does not fit in the buffer
+    auto size             = size_t(0);
+    auto append_to_buffer = [&](const char *str, size_t str_size)
+    {
+        if (size + str_size <= max_size)
+            memcpy(buffer + size, str, str_size);
+
+        size += str_size;
+    };
+
     for (;;)
     {
-        const auto pos = view.find_first_of(R"(\")", start);
-        if (pos == view.npos) [[unlikely]]
+        const auto view  = stream.view(1, UINT32_MAX);
+        const auto found = view.find_first_of(R"("\)");
+        if (found == view.npos) [[unlikely]]
         {
+            append_to_buffer(view.data(), view.size());
             stream.skip(view.size());
-            if (start > view.size())
-            {
-                //- the view ends with '\', skip also the escaped char
-                (void)stream.view(1, 1);
-                stream.skip(1);
-            }
-            break;
+            continue;
         }
 
-        if (view[pos] == '"') [[likely]]
-        {
-            memcpy(buffer, view.data(), pos);
-            // +1 for '""
-            stream.skip(pos + 1);
-            stream.skip_white_spaces();
-            return (pos >= min_size) ? std::string_view{buffer, pos} : std::string_view{};
-        }
+        append_to_buffer(view.data(), found);
+        const auto is_end = view[found] == '"';
+        // +1 for '"' or '\'
+        stream.skip(found + 1);
+        if (is_end) [[likely]]
+            break;
 
-        // +2 for \ and char behind
-        start = pos + 2;
+        char utf8_buffer[4];
+        const auto utf8_size = unescape(stream, utf8_buffer);
+        append_to_buffer(utf8_buffer, utf8_size);
     }
-    ignore_string_until_double_quota(stream);
-    return {};
+    stream.skip_white_spaces();
+    return (size >= min_size && size <= max_size) ? std::string_view{buffer, size} : std::string_view{};
 }
 
 auto unicode_from_hex(auto &stream) -> uint16_t
-- 
2.43.0


From afef33939075d94f4b1a820e36eef9562b144627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:36 +0000
Subject: [PATCH 32/63] fix: json map keys of user defined string types

---
 include/spb/json/deserialize.hpp | 2 +-
 include/spb/json/serialize.hpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 86f74c5..2a23e98 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -664,7 +664,7 @@ void deserialize(auto &stream, spb::detail::proto_field_bytes auto &value)
 
 template <field_attributes attributes, typename T> void deserialize_map_key(auto &stream, T &map_key)
 {
-    if constexpr (std::is_same_v<T, std::string>)
+    if constexpr (spb::detail::proto_field_string<T>)
     {
         deserialize<attributes>(stream, map_key);
     }
diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index f5d237f..182583c 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -443,12 +443,12 @@ template <field_attributes attributes> void serialize(auto &stream, const spb::d
     stream.put_comma = false;
     for (const auto &[map_key, map_value] : map)
     {
-        if constexpr (std::is_same_v<key_type, std::string_view> || std::is_same_v<key_type, std::string>)
+        if constexpr (std::is_same_v<key_type, std::string_view> || spb::detail::proto_field_string<key_type>)
         {
             put_comma_if_needed(stream);
 
             stream.write('"');
-            write_escaped(stream, map_key);
+            write_escaped(stream, std::string_view(map_key.data(), map_key.size()));
             write_string(stream, R"(":)");
         }
         else
-- 
2.43.0


From 37eff78be197fff993fc7b5031879fbb2dd663b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:36 +0000
Subject: [PATCH 33/63] fix: json checks max_size of fixed size strings

---
 include/spb/json/deserialize.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 2a23e98..a1775e6 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -486,7 +486,8 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
     auto append_to_value = [&](const char *str, size_t size)
     {
         if constexpr (attributes.max_size)
-            check_size(value.size() + size, attributes.max_size);
+            check_size((spb::detail::proto_field_string_resizable<decltype(value)> ? value.size() : index) + size,
+                       attributes.max_size);
 
         if constexpr (spb::detail::proto_field_string_resizable<decltype(value)>)
         {
-- 
2.43.0


From 3635a5c99f47c3962b10b8a66910ef1a117fae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:36 +0000
Subject: [PATCH 34/63] fix: json fixed size arrays need exactly one comma
 between items

---
 include/spb/json/deserialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index a1775e6..79c9779 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -643,8 +643,8 @@ void deserialize(auto &stream, Container &value)
         if (i + 1 >= value.size())
             break;
 
-        while (stream.consume_and_skip_white_space(','))
-            ;
+        if (!stream.consume_and_skip_white_space(',')) [[unlikely]]
+            throw std::runtime_error("expecting ','");
     }
 
     if (!stream.consume_and_skip_white_space(']')) [[unlikely]]
-- 
2.43.0


From 56eb0b5621861f84689356fcfa60c94bbd13f7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:54 +0000
Subject: [PATCH 35/63] fix: json writes NaN and Infinity as strings

---
 include/spb/json/serialize.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index 182583c..c7c9faf 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -20,6 +20,7 @@
 #include <array>
 #include <charconv>
 #include <cinttypes>
+#include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
@@ -306,6 +307,15 @@ void serialize(auto &stream, const spb::detail::proto_field_string auto &value)
 template <field_attributes>
 void serialize(auto &stream, const spb::detail::proto_field_int_or_float auto &value)
 {
+    if constexpr (std::is_floating_point_v<std::remove_cvref_t<decltype(value)>>)
+    {
+        //- https://protobuf.dev/programming-guides/json
+        if (std::isnan(value)) [[unlikely]]
+            return write_string(stream, R"("NaN")");
+
+        if (std::isinf(value)) [[unlikely]]
+            return value < 0 ? write_string(stream, R"("-Infinity")") : write_string(stream, R"("Infinity")");
+    }
     auto buffer = std::array<char, 32>();
     auto result = spb_std_emu::to_chars(buffer.data(), buffer.data() + sizeof(buffer), value);
     stream.write(buffer.data(), static_cast<size_t>(result.ptr - buffer.data()));
-- 
2.43.0


From 4f38b0154c78ea324ebc70b572fb1a3edb61fa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:36 +0000
Subject: [PATCH 36/63] fix: json checks the size of fixed size bytes

---
 include/spb/json/base64.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index 5850d2d..6b28a90 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -92,8 +92,21 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
     if (!stream.consume('"')) [[unlikely]]
         throw std::runtime_error("expecting '\"'");
 
+    if constexpr (!spb::detail::proto_field_bytes_resizable<decltype(output)>)
+    {
+        if (max_output_size && output.size() > max_output_size) [[unlikely]]
+            throw std::length_error("bytes is too large");
+    }
+
     if (stream.consume_and_skip_white_space('"'))
+    {
+        if constexpr (!spb::detail::proto_field_bytes_resizable<decltype(output)>)
+        {
+            if (output.size() != 0) [[unlikely]]
+                throw std::runtime_error("too small base64");
+        }
         return;
+    }
 
     auto mask = uint8_t(0);
 
-- 
2.43.0


From 5208420936ed1bb090e37199252011a5f0679641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:16 +0000
Subject: [PATCH 37/63] fix: pb merges repeated occurrences of a submessage

---
 include/spb/pb/deserialize.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index b3daac5..250f7d4 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -24,6 +24,7 @@
 #include <stdexcept>
 #include <string_view>
 #include <type_traits>
+#include <variant>
 
 namespace spb::pb::detail
 {
@@ -496,8 +497,11 @@ void deserialize(auto &stream, spb::detail::proto_field_int_or_float auto &value
 template <serialize_mode mode, spb::detail::proto_label_optional Container>
 void deserialize(auto &stream, Container &p_value, wire_type type)
 {
-    auto &value = p_value.emplace(typename Container::value_type());
-    deserialize<mode>(stream, value, type);
+    //- messages are merged
+    if (!p_value.has_value())
+        p_value.emplace(typename Container::value_type());
+
+    deserialize<mode>(stream, *p_value, type);
 }
 
 template <serialize_mode mode>
@@ -523,7 +527,10 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value, wire
 template <serialize_mode mode, typename T>
 void deserialize(auto &stream, std::unique_ptr<T> &value, wire_type type)
 {
-    value = std::make_unique<T>();
+    //- messages are merged
+    if (!value)
+        value = std::make_unique<T>();
+
     deserialize<mode>(stream, *value, type);
 }
 
@@ -717,7 +724,11 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
 template <serialize_mode mode, size_t ordinal, typename T>
 void deserialize_variant(auto &stream, T &variant, wire_type type)
 {
-    deserialize<mode>(stream, variant.template emplace<ordinal>(), type);
+    //- messages are merged
+    if (variant.index() != ordinal)
+        variant.template emplace<ordinal>();
+
+    deserialize<mode>(stream, std::get<ordinal>(variant), type);
 }
 
 template <serialize_mode>
-- 
2.43.0


From ab4e97f45e1667d1750983dc7e9f218373400313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 38/63] fix: json names of fields follow protoc's
 lowerCamelCase

A field 'fooBar_baz' has the JSON name 'fooBarBaz', not 'foobarBaz', and 'Foo' and
'foo' are different fields: the JSON key 'foo' was stored in 'Foo'.
---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 22 +++++--------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 9cacbec..0799e15 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -43,29 +43,19 @@ auto json_name_from_options(const proto_attributes &attributes) -> std::string_v
 
 auto convert_to_camelCase(std::string_view input) -> std::string
 {
-    auto result = std::string(input);
-    if (!result.empty())
-        result[0] = char(std::tolower(result[0]));
-
-    if (input.find('_') == std::string::npos)
-        return result;
-
-    auto index = 0U;
-    auto up    = false;
+    //- same as protoc: remove '_' and capitalize the next character, keep the case of all others
+    auto result = std::string();
+    auto up     = false;
     for (auto c : input)
     {
         if (c == '_')
         {
             up = true;
+            continue;
         }
-        else
-        {
-            result[index] = char((up && index > 0) ? std::toupper(c) : std::tolower(c));
-            index += 1;
-            up = false;
-        }
+        result += up ? char(std::toupper(static_cast<unsigned char>(c))) : c;
+        up = false;
     }
-    result.resize(index);
     return result;
 }
 
-- 
2.43.0


From 68c27aaf888233bc12f2f055593d456e727d60ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 39/63] fix: parser accepts hexadecimal numbers that start with
 a letter

---
 src/spb-proto-compiler/parser/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 873448c..3298b46 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -96,7 +96,7 @@ auto consume_number(spb::char_stream &stream, std::integral auto &number) -> boo
         if (stream.consume('x') || stream.consume('X'))
             base = 16;
 
-        if (!::isdigit(stream.current_char()))
+        if (base == 8 && !::isdigit(stream.current_char()))
             return true;
     }
     auto result = spb_std_emu::from_chars(stream.begin(), stream.end(), number, base);
-- 
2.43.0


From 568763ae5e1ec72057a9d82d2dd9a13bb84b852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 40/63] fix: boolean option values point to the proto file, so
 that errors can be reported

---
 src/spb-proto-compiler/parser/parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 3298b46..3f982f4 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -435,11 +435,13 @@ void parse_top_level_package(spb::char_stream &stream, proto_base &package, prot
 {
     //- fullIdent | ( [ "-" | "+" ] intLit ) | ( [ "-" | "+" ] floatLit ) | strLit | boolLit |
     // MessageValue
+    //- result has to point to the .proto file, errors are reported by their position in it
+    const auto content = stream.content();
     if (stream.consume("true"))
-        return "true";
+        return content.substr(0, "true"sv.size());
 
     if (stream.consume("false"))
-        return "false";
+        return content.substr(0, "false"sv.size());
 
     const auto c = stream.current_char();
     if (c == '"' || c == '\'')
-- 
2.43.0


From 407d2c4279d4e267c3719608274c390566946bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 41/63] fix: parser does not end on a NUL character at the top
 level

---
 src/spb-proto-compiler/parser/parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 3f982f4..9bb8b72 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -980,6 +980,8 @@ void parse_top_level(spb::char_stream &stream, proto_file &file, parsing_ctx &ct
     switch (stream.current_char())
     {
     case '\0':
+        if (!stream.empty())
+            stream.throw_parse_error("expecting top level definition");
         return;
     case 's':
         return parse_top_level_syntax_or_service(stream, file, std::move(comment));
-- 
2.43.0


From b66049199a949e1e48f74f9e20a4e4ace4bd0202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 42/63] fix: default enum value that is a C++ keyword is
 escaped

---
 src/spb-proto-compiler/dumper/header.cpp |  2 +-
 src/spb-proto-compiler/parser/parser.cpp | 26 ++++++++++++++++--------
 src/spb-proto-compiler/parser/parser.h   |  9 ++++++++
 3 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 88d69d0..3fdfc0f 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -378,7 +378,7 @@ void dump_default_value(std::ostream &stream, const proto_field &field)
 
     if (field.type == proto_field::Type::ENUM)
     {
-        stream << " = " << field.type_name.get_name() << "::" << default_value;
+        stream << " = " << field.type_name.get_name() << "::" << cpp_name_from_proto(default_value);
     }
     else if (field.type == proto_field::Type::STRING &&
              (default_value.size() < 2 || default_value.front() != '"' || default_value.back() != '"'))
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 9bb8b72..6f60a43 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -234,7 +234,7 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
     return result;
 }
 
-[[nodiscard]] auto parse_ident(spb::char_stream &stream, bool skip_last_white_space = true) -> cpp_ident
+[[nodiscard]] auto to_cpp_ident(std::string_view name) -> cpp_ident
 {
     static constexpr auto cpp_reserved_keywords = std::array<std::string_view, 92>{
         "alignas",     "alignof",   "and",        "and_eq",    "asm",      "auto",         "bitand",
@@ -252,6 +252,17 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
         "using",       "virtual",   "void",       "volatile",  "wchar_t",  "while",        "xor",
         "xor_eq"};
 
+    for (const auto keyword : cpp_reserved_keywords)
+    {
+        if (keyword == name)
+            return cpp_ident{.proto_name = name, .cpp_name = std::string(name) + "_"};
+    }
+
+    return cpp_ident{.proto_name = name};
+}
+
+[[nodiscard]] auto parse_ident(spb::char_stream &stream, bool skip_last_white_space = true) -> cpp_ident
+{
     const auto *start = stream.begin();
 
     if (isalpha(stream.current_char()) == 0)
@@ -272,13 +283,7 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
     if (skip_last_white_space)
         stream.consume_space();
 
-    for (const auto keyword : cpp_reserved_keywords)
-    {
-        if (keyword == result)
-            return cpp_ident{.proto_name = result, .cpp_name = std::string(result) + "_"};
-    }
-
-    return cpp_ident{.proto_name = result};
+    return to_cpp_ident(result);
 }
 
 [[nodiscard]] auto parse_full_ident(spb::char_stream &stream) -> cpp_ident
@@ -1065,6 +1070,11 @@ auto parse_proto_file(const fs::path &file, std::span<const fs::path> import_pat
     return parse_proto_file(file_path, ctx);
 }
 
+[[nodiscard]] auto cpp_name_from_proto(std::string_view proto_name) -> std::string
+{
+    return std::string(to_cpp_ident(proto_name).get_name());
+}
+
 [[nodiscard]] auto cpp_file_name_from_proto(const fs::path &proto_file_path, std::string_view extension)
     -> fs::path
 {
diff --git a/src/spb-proto-compiler/parser/parser.h b/src/spb-proto-compiler/parser/parser.h
index aab2121..bf40f0f 100644
--- a/src/spb-proto-compiler/parser/parser.h
+++ b/src/spb-proto-compiler/parser/parser.h
@@ -27,6 +27,15 @@
 [[nodiscard]] auto cpp_file_name_from_proto(const std::filesystem::path &proto_file_path,
                                             std::string_view extension) -> std::filesystem::path;
 
+/**
+ * @brief generate C++ name from a .proto name
+ *        example: "class" -> "class_"
+ *
+ * @param proto_name name in the proto file
+ * @return C++ name
+ */
+[[nodiscard]] auto cpp_name_from_proto(std::string_view proto_name) -> std::string;
+
 /**
  * @brief parse proto file
  *
-- 
2.43.0


From f95d7ba0b8696fb7f390ecd3b2a6844e1c5585a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 43/63] fix: integer, inf and nan defaults of float and double
 fields

---
 src/spb-proto-compiler/dumper/header.cpp | 33 ++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 3fdfc0f..b9833f6 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -37,6 +37,7 @@ struct std_includes
     bool variant;
     bool optional;
     bool memory;
+    bool limits;
 };
 
 void dump_comment(std::ostream &stream, const proto_comment &comment)
@@ -370,6 +371,31 @@ void dump_message_map(std::ostream &stream, const proto_map &map, const proto_me
            << " " << map.name.get_name() << ";\n";
 }
 
+auto is_float(const proto_field &field) -> bool
+{
+    return field.type == proto_field::Type::FLOAT || field.type == proto_field::Type::DOUBLE;
+}
+
+auto is_inf_or_nan(std::string_view value) -> bool
+{
+    return value.ends_with("inf") || value.ends_with("nan");
+}
+
+auto default_float_value(const proto_field &field) -> std::string
+{
+    const auto value  = field.attributes.default_;
+    const auto limits = std::string("std::numeric_limits<") +
+                        (field.type == proto_field::Type::FLOAT ? "float" : "double") + ">::";
+
+    if (is_inf_or_nan(value))
+        return (value.starts_with('-') ? "-" : "") + limits +
+               (value.ends_with("nan") ? "quiet_NaN()" : "infinity()");
+
+    //- an integer can't have a floating point suffix
+    const auto *const point = value.find_first_of(".eE") == value.npos ? "." : "";
+    return std::string(value) + point + std::string(type_literal_suffix(field.type));
+}
+
 void dump_default_value(std::ostream &stream, const proto_field &field)
 {
     auto default_value = field.attributes.default_;
@@ -385,6 +411,10 @@ void dump_default_value(std::ostream &stream, const proto_field &field)
     {
         stream << " = \"" << default_value << "\"";
     }
+    else if (is_float(field))
+    {
+        stream << " = " << default_float_value(field);
+    }
     else
     {
         stream << " = " << default_value << type_literal_suffix(field.type);
@@ -449,6 +479,7 @@ void get_std_includes(const proto_field &field, const proto_message &message, co
     const auto type  = add_label_type(ctype, field, message, file);
 
     get_std_includes(ctype, type, result);
+    result.limits |= is_float(field) && is_inf_or_nan(field.attributes.default_);
 }
 
 void get_std_includes(const proto_oneof &oneof, const proto_file &file, std_includes &result)
@@ -579,6 +610,8 @@ void get_std_includes(cpp_includes &includes, const proto_file &file)
 
     const auto std_includes = get_std_includes(file);
 
+    if (std_includes.limits)
+        includes.insert("<limits>");
     if (std_includes.optional)
         includes.insert("<optional>");
     if (std_includes.memory)
-- 
2.43.0


From b63b684a9049a142c8fa869789707274e4e3b87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 44/63] fix: options in comments apply to maps and oneof fields

---
 src/spb-proto-compiler/parser/parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 6f60a43..59dc792 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -752,6 +752,7 @@ auto parse_map_body(spb::char_stream &stream, proto_comment &&comment) -> proto_
     new_map.options = parse_field_options(stream);
     new_map.comment = std::move(comment);
     consume_statement_end(stream, new_map.comment);
+    parse_options_from_comments(stream, new_map.options, new_map.comment);
     return new_map;
 }
 
@@ -777,6 +778,7 @@ void parse_oneof_field(spb::char_stream &stream, proto_fields &fields, proto_com
     new_field.options = parse_field_options(stream);
     new_field.comment = std::move(comment);
     consume_statement_end(stream, new_field.comment);
+    parse_options_from_comments(stream, new_field.options, new_field.comment);
     fields.push_back(new_field);
 }
 
-- 
2.43.0


From 8f20eb750b976cba71580953acf4c9cb10beb8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 45/63] fix: message and file options apply to oneof and map
 fields

---
 src/spb-proto-compiler/dumper/header.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index b9833f6..c642d99 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -347,14 +347,15 @@ void dump_enum(std::ostream &stream, const proto_enum &my_enum, const proto_mess
     stream << "};\n";
 }
 
-void dump_message_oneof(std::ostream &stream, const proto_oneof &oneof, const proto_file &file)
+void dump_message_oneof(std::ostream &stream, const proto_oneof &oneof, const proto_message &message,
+                        const proto_file &file)
 {
     dump_comment(stream, oneof.comment);
 
     stream << "std::variant<std::monostate";
     for (const auto &field : oneof.fields)
     {
-        stream << ", " << convert_to_ctype(file, field);
+        stream << ", " << convert_to_ctype(file, field, message);
     }
     stream << "> " << oneof.name.get_name() << ";\n";
 }
@@ -362,8 +363,8 @@ void dump_message_oneof(std::ostream &stream, const proto_oneof &oneof, const pr
 void dump_message_map(std::ostream &stream, const proto_map &map, const proto_message &message,
                       const proto_file &file)
 {
-    const auto key_type   = convert_to_ctype(file, map.key);
-    const auto value_type = convert_to_ctype(file, map.value);
+    const auto key_type   = convert_to_ctype(file, map.key, message);
+    const auto value_type = convert_to_ctype(file, map.value, message);
 
     dump_comment(stream, map.comment);
     stream << get_map_type(map.attributes.map, message.attributes.map, file.attributes.map, key_type,
@@ -461,8 +462,8 @@ void get_std_includes(std::string_view ctype, std::string_view type, std_include
 void get_std_includes(const proto_map &map, const proto_message &message, const proto_file &file,
                       std_includes &result)
 {
-    const auto key_type   = convert_to_ctype(file, map.key);
-    const auto value_type = convert_to_ctype(file, map.value);
+    const auto key_type   = convert_to_ctype(file, map.key, message);
+    const auto value_type = convert_to_ctype(file, map.value, message);
 
     result.map |= get_map_type(map.attributes.map, message.attributes.map, file.attributes.map, key_type,
                                value_type, "std::map<$, @>")
@@ -482,11 +483,12 @@ void get_std_includes(const proto_field &field, const proto_message &message, co
     result.limits |= is_float(field) && is_inf_or_nan(field.attributes.default_);
 }
 
-void get_std_includes(const proto_oneof &oneof, const proto_file &file, std_includes &result)
+void get_std_includes(const proto_oneof &oneof, const proto_message &message, const proto_file &file,
+                      std_includes &result)
 {
     for (const auto &field : oneof.fields)
     {
-        get_std_includes(convert_to_ctype(file, field), "", result);
+        get_std_includes(convert_to_ctype(file, field, message), "", result);
     }
 }
 
@@ -500,7 +502,7 @@ void get_std_includes(const proto_message &message, const proto_file &file, std_
     for (const auto &oneof : message.oneofs)
     {
         result.variant = true;
-        get_std_includes(oneof, file, result);
+        get_std_includes(oneof, message, file, result);
     }
 
     for (const auto &field : message.fields)
@@ -553,7 +555,7 @@ void dump_message(std::ostream &stream, const proto_message &message, const prot
 
     for (const auto &oneof : message.oneofs)
     {
-        dump_message_oneof(stream, oneof, file);
+        dump_message_oneof(stream, oneof, message, file);
     }
 
     //- TODO: is this used in any way?
-- 
2.43.0


From 5273eeb795bda89528354dfebe119c630424f1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 46/63] fix: generated comment that ends with a backslash does
 not continue on the next line

---
 src/spb-proto-compiler/dumper/header.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index c642d99..b3bd001 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -51,6 +51,9 @@ void dump_comment(std::ostream &stream, const proto_comment &comment)
         }
 
         stream << comm;
+        //- backslash at the end would join the comment with the next line
+        if (comm.starts_with("//") && comm.find_last_not_of(" \t\r") == comm.rfind('\\'))
+            stream << " //";
         if (comm.back() != '\n')
             stream << '\n';
     }
-- 
2.43.0


From 9cf9f5d6f34f0a2d553bc0df7d4dc59f4ae0a0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 47/63] fix: content of a small imported file is not stored
 inside of the moved string

---
 src/spb-proto-compiler/parser/parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 59dc792..54034db 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -1030,6 +1030,9 @@ void set_default_attributes(proto_file &file)
             .path    = file,
             .content = load_file(file),
         };
+        //- whole ast points to the content, so it can't be stored inside of the std::string object
+        //- (small string optimization), because the object is going to be moved
+        result.content.reserve(sizeof(std::string));
 
         parse_proto_file_content(result, ctx);
         resolve_messages(result);
-- 
2.43.0


From ac093e589824ca472a0e314b973ca1848a1c602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 48/63] fix: unknown type option of a 32-bit field is rejected

---
 src/spb-proto-compiler/ast/ast-types.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index ea6a040..78ebc56 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -100,6 +100,10 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
                proto_field::BitType::INT64}}},
         }};
 
+    //- not used items of the arrays are NONE
+    if (to == proto_field::BitType::NONE)
+        return false;
+
     for (auto [proto_type, types] : type_map)
     {
         if (from == proto_type)
-- 
2.43.0


From 8e28ba54abf8be0615ac48e686658869aef9c417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 49/63] fix: parser accepts arrays and messages in options
 without spaces

---
 src/spb-proto-compiler/parser/parser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 54034db..419eeae 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -461,24 +461,24 @@ void parse_top_level_package(spb::char_stream &stream, proto_base &package, prot
 void parse_option_value(spb::char_stream &stream, proto_option &value);
 void parse_option_array(spb::char_stream &stream, proto_option &value)
 {
-    consume_or_fail(stream, "[");
-    while (!stream.consume("]"))
+    consume_or_fail(stream, '[');
+    while (!stream.consume(']'))
     {
         parse_option_value(stream, value);
-        stream.consume(",");
+        (void)stream.consume(',');
     }
 }
 
 void parse_option_struct(spb::char_stream &stream, proto_option &value)
 {
-    consume_or_fail(stream, "{");
+    consume_or_fail(stream, '{');
     auto &options = value.options.emplace_back();
-    while (!stream.consume("}"))
+    while (!stream.consume('}'))
     {
         const auto option_name = parse_ident(stream).proto_name;
         consume_or_fail(stream, ':');
         parse_option_value(stream, options[option_name]);
-        stream.consume(",");
+        (void)stream.consume(',');
     }
 }
 
-- 
2.43.0


From 0d77895031fb8d41b8cefe23ab134083c8c90c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 50/63] fix: import of a file from a directory includes its
 header by that path

---
 src/spb-proto-compiler/ast/proto-file.h  |  2 ++
 src/spb-proto-compiler/dumper/header.cpp | 10 ++++++++--
 src/spb-proto-compiler/parser/parser.cpp |  5 +++--
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/spb-proto-compiler/ast/proto-file.h b/src/spb-proto-compiler/ast/proto-file.h
index 7b6778f..df97512 100644
--- a/src/spb-proto-compiler/ast/proto-file.h
+++ b/src/spb-proto-compiler/ast/proto-file.h
@@ -29,6 +29,8 @@ using proto_files = std::vector<proto_file>;
 struct proto_file
 {
     std::filesystem::path path;
+    //- name used in the `import` statement
+    std::filesystem::path import_name;
     std::string content;
     proto_syntax syntax;
     proto_comment comment;
diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index b3bd001..8800f79 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -105,10 +105,16 @@ void get_imports(cpp_includes &includes, const proto_file &file)
 {
     for (const auto &import : file.imports)
     {
-        if (file.attributes.exclude.contains(import.path.filename().string()))
+        if (file.attributes.exclude.contains(import.path.filename().string()) ||
+            file.attributes.exclude.contains(import.import_name.generic_string()))
             continue;
 
-        includes.insert("\"" + cpp_file_name_from_proto(import.path, ".pb.h").string() + "\"");
+        //- the directory is needed, a header is generated to the same directory as its .proto
+        auto header = cpp_file_name_from_proto(import.import_name, ".pb.h");
+        if (!import.import_name.has_root_path())
+            header = import.import_name.parent_path() / header;
+
+        includes.insert("\"" + header.generic_string() + "\"");
     }
 }
 
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 419eeae..53610c4 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -388,8 +388,9 @@ void parse_top_level_import(spb::char_stream &stream, proto_file &file, parsing_
             if (!ctx.already_parsed.insert(import_file_path.string()).second)
                 return;
 
-            file.imports.emplace_back(parse_proto_file(import_file_path, import_ctx)).comment =
-                std::move(import_comment);
+            auto &import       = file.imports.emplace_back(parse_proto_file(import_file_path, import_ctx));
+            import.comment     = std::move(import_comment);
+            import.import_name = import_name;
         }
         catch (const std::runtime_error &)
         {
-- 
2.43.0


From 976baa1cc0db1fb248712e4a0af9f00dbe226c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 51/63] fix: a file imported by several files is visible in all
 of them

---
 src/spb-proto-compiler/parser/parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 53610c4..26b44b2 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -391,6 +391,8 @@ void parse_top_level_import(spb::char_stream &stream, proto_file &file, parsing_
             auto &import       = file.imports.emplace_back(parse_proto_file(import_file_path, import_ctx));
             import.comment     = std::move(import_comment);
             import.import_name = import_name;
+            //- a set of files on the import path (cycles), other files may import it too
+            ctx.already_parsed.erase(import_file_path.string());
         }
         catch (const std::runtime_error &)
         {
-- 
2.43.0


From e0a0bba46fb0c4d11a8ddac079d3eb03b887ff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 52/63] fix: comments on the following lines do not belong to
 the finished statement

---
 src/spb-proto-compiler/parser/parser.cpp | 57 +++++++++++++++---------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 26b44b2..05616d5 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -12,6 +12,7 @@
 #include "ast/proto-field.h"
 #include "ast/proto-file.h"
 #include "dumper/header.h"
+#include <algorithm>
 #include <array>
 #include <ast/ast-types.h>
 #include <ast/ast.h>
@@ -176,31 +177,49 @@ void parse_comment_multiline(spb::char_stream &stream, proto_comment &comment)
 }
 
 //- parse // \n or /**/
+void parse_single_comment(spb::char_stream &stream, proto_comment &comment)
+{
+    stream.consume_current_char(false);
+    if (stream.current_char() == '/')
+    {
+        stream.consume_current_char(false);
+        parse_comment_line(stream, comment);
+    }
+    else if (stream.current_char() == '*')
+    {
+        stream.consume_current_char(false);
+        parse_comment_multiline(stream, comment);
+    }
+    else
+    {
+        stream.throw_parse_error("expecting // or /*");
+    }
+}
+
+//- parse { // \n or /**/ }
 auto parse_comment(spb::char_stream &stream) -> proto_comment
 {
     auto result = proto_comment{};
 
     while (stream.current_char() == '/')
     {
-        stream.consume_current_char(false);
-        if (stream.current_char() == '/')
-        {
-            stream.consume_current_char(false);
-            parse_comment_line(stream, result);
-        }
-        else if (stream.current_char() == '*')
-        {
-            stream.consume_current_char(false);
-            parse_comment_multiline(stream, result);
-        }
-        else
-        {
-            stream.throw_parse_error("expecting // or /*");
-        }
+        parse_single_comment(stream, result);
     }
     return result;
 }
 
+//- parse comments that start on the current line
+void parse_comment_until_new_line(spb::char_stream &stream, proto_comment &comment)
+{
+    const auto *start = stream.begin();
+    skip_white_space_until_new_line(stream);
+
+    while (stream.current_char() == '/' && std::find(start, stream.begin(), '\n') == stream.begin())
+    {
+        parse_single_comment(stream, comment);
+    }
+}
+
 //- parse ;
 [[nodiscard]] auto parse_empty_statement(spb::char_stream &stream) -> bool
 {
@@ -321,13 +340,7 @@ void consume_statement_end(spb::char_stream &stream, proto_comment &comment)
         return stream.throw_parse_error(R"(expecting ";")");
 
     stream.consume_current_char(false);
-    skip_white_space_until_new_line(stream);
-    if (stream.current_char() == '/')
-    {
-        const auto line_comment = parse_comment(stream);
-        comment.comments.insert(comment.comments.end(), line_comment.comments.begin(),
-                                line_comment.comments.end());
-    }
+    parse_comment_until_new_line(stream, comment);
     stream.consume_space();
 }
 
-- 
2.43.0


From 582588c2317b2b7d2a5a18bdb839548e679d18bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 53/63] fix: failed write of indented output is not lost

---
 src/spb-proto-compiler/dumper/indent_ostream.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/dumper/indent_ostream.h b/src/spb-proto-compiler/dumper/indent_ostream.h
index 4facbd3..679c250 100644
--- a/src/spb-proto-compiler/dumper/indent_ostream.h
+++ b/src/spb-proto-compiler/dumper/indent_ostream.h
@@ -78,10 +78,18 @@ class indented_streambuf : public std::streambuf
 class indented_ostream : public std::ostream
 {
   private:
+    std::ostream &dest;
     indented_streambuf buffer;
 
   public:
-    explicit indented_ostream(std::ostream &os) : std::ostream(&buffer), buffer(os.rdbuf())
+    explicit indented_ostream(std::ostream &os) : std::ostream(&buffer), dest(os), buffer(os.rdbuf())
     {
     }
+
+    ~indented_ostream() override
+    {
+        //- the data are written directly to the buffer of `dest`, so it doesn't know about the failure
+        if (fail())
+            dest.setstate(std::ios_base::badbit);
+    }
 };
-- 
2.43.0


From 3fa026e3d55c2af0d7eafe0b21c98f36e2e7e715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 54/63] fix: short read of a .proto file is an error

A read error was ignored and the rest of the file silently dropped, the
generated code was incomplete and the exit status 0.
---
 src/spb-proto-compiler/io/file.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/io/file.cpp b/src/spb-proto-compiler/io/file.cpp
index cc7d645..46b2020 100644
--- a/src/spb-proto-compiler/io/file.cpp
+++ b/src/spb-proto-compiler/io/file.cpp
@@ -22,8 +22,10 @@ auto load_file(const std::filesystem::path &file_path) -> std::string
     {
         const auto read = fread(file_content.data(), 1, file_content.size(), p_file);
         fclose(p_file);
-        file_content.resize(read);
-        return file_content;
+        if (read == file_content.size())
+        {
+            return file_content;
+        }
     }
     throw std::runtime_error(std::string(" ") + strerror(errno));
 }
-- 
2.43.0


From 6fce284fddce7a9e1cd95dcd60b581c090b3d34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:45 +0000
Subject: [PATCH 55/63] fix: an empty path on the command line is an error, not
 a crash

---
 src/spb-proto-compiler/main.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/spb-proto-compiler/main.cpp b/src/spb-proto-compiler/main.cpp
index 3350097..2a205b7 100644
--- a/src/spb-proto-compiler/main.cpp
+++ b/src/spb-proto-compiler/main.cpp
@@ -100,6 +100,7 @@ void process_file(const fs::path &input_file, std::span<const fs::path> import_p
 } // namespace
 
 auto main(int argc, char *argv[]) -> int
+try
 {
     if (argc < 2)
     {
@@ -189,18 +190,15 @@ auto main(int argc, char *argv[]) -> int
         return 1;
     }
 
-    try
+    for (const auto &input_file : input_files)
     {
-        for (const auto &input_file : input_files)
-        {
-            process_file(input_file, import_paths, output_dir);
-        }
-    }
-    catch (const std::exception &e)
-    {
-        std::cerr << e.what() << '\n';
-        return 1;
+        process_file(input_file, import_paths, output_dir);
     }
 
     return 0;
+}
+catch (const std::exception &e)
+{
+    std::cerr << e.what() << '\n';
+    return 1;
 }
\ No newline at end of file
-- 
2.43.0


From 831795726ec37383cf84879edef6e0a1c8b46e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 56/63] fix: output directory did not follow -I paths with '.',
 '..' or a trailing '/'

---
 src/spb-proto-compiler/main.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/main.cpp b/src/spb-proto-compiler/main.cpp
index 2a205b7..66a3add 100644
--- a/src/spb-proto-compiler/main.cpp
+++ b/src/spb-proto-compiler/main.cpp
@@ -58,10 +58,19 @@ auto construct_path(fs::path::iterator begin, fs::path::iterator end) -> fs::pat
     return result.parent_path();
 }
 
-auto get_relative_output_dir(const fs::path &input_file, std::span<const fs::path> import_paths) -> fs::path
+//- path without '.', '..' and a trailing '/'
+auto normalize(const fs::path &path) -> fs::path
 {
-    for (const auto &import : import_paths)
+    auto result = path.lexically_normal();
+    return result.has_filename() ? result : result.parent_path();
+}
+
+auto get_relative_output_dir(const fs::path &input_path, std::span<const fs::path> import_paths) -> fs::path
+{
+    const auto input_file = normalize(input_path);
+    for (const auto &import_path : import_paths)
     {
+        const auto import = normalize(import_path);
         const auto miss = std::mismatch(import.begin(), import.end(), input_file.begin(), input_file.end());
 
         if (miss.first == import.end())
-- 
2.43.0


From 1858d9dfaea7ff01a47a1c444e0d075501e94639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 57/63] fix: JSON input over 0x7f was passed to isspace and
 isalnum as a negative number

---
 include/spb/json/deserialize.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 79c9779..8d79e2b 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -17,7 +17,6 @@
 #include "base64.h"
 #include "field.hpp"
 #include <algorithm>
-#include <cctype>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
@@ -36,6 +35,17 @@ using namespace std::literals;
 
 static const auto escape = '\\';
 
+//- isspace and isalnum depend on the locale and are not defined for a negative char
+[[nodiscard]] constexpr auto is_space(char c) noexcept -> bool
+{
+    return c == ' ' || (c >= '\t' && c <= '\r');
+}
+
+[[nodiscard]] constexpr auto is_alnum(char c) noexcept -> bool
+{
+    return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
+}
+
 /**
  * @brief helper for std::variant visit
  *        https://en.cppreference.com/w/cpp/utility/variant/visit
@@ -154,7 +164,7 @@ struct istream_buffer
         }
 
         const auto char_behind_token = p_start[token.size()];
-        if (isalnum(char_behind_token) || char_behind_token == '_')
+        if (is_alnum(char_behind_token) || char_behind_token == '_')
             return false;
 
         skip(token.size());
@@ -167,7 +177,7 @@ struct istream_buffer
     }
     void skip_white_spaces() noexcept
     {
-        while (!empty() && isspace(*p_start))
+        while (!empty() && is_space(*p_start))
         {
             ++p_start;
         }
@@ -255,7 +265,7 @@ struct istream_reader
         }
 
         const auto char_behind_token = token_view[token.size()];
-        if (isalnum(char_behind_token) || char_behind_token == '_')
+        if (is_alnum(char_behind_token) || char_behind_token == '_')
             return false;
 
         skip(token.size());
@@ -274,7 +284,7 @@ struct istream_reader
             size_t spaces = 0;
             for (auto c : view)
             {
-                if (!isspace(c))
+                if (!is_space(c))
                 {
                     consume_bytes(spaces);
                     return;
-- 
2.43.0


From 01e2c98819b9582c696bea02d3b03e5c8ec3671b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 58/63] fix: characters over 0x7f of a schema were passed to
 isspace and others as negative numbers

---
 src/spb-proto-compiler/dumper/header.cpp    |  4 ++--
 src/spb-proto-compiler/parser/char_stream.h |  4 ++--
 src/spb-proto-compiler/parser/parser.cpp    | 10 +++++-----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 8800f79..1a7f2d2 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -63,12 +63,12 @@ auto trim_include(std::string_view str) -> std::string
 {
     auto p_begin = str.data();
     auto p_end   = str.data() + str.size();
-    while (p_begin < p_end && isspace(*p_begin))
+    while (p_begin < p_end && isspace(static_cast<unsigned char>(*p_begin)))
     {
         p_begin++;
     }
 
-    while (p_begin < p_end && isspace(p_end[-1]))
+    while (p_begin < p_end && isspace(static_cast<unsigned char>(p_end[-1])))
     {
         p_end--;
     }
diff --git a/src/spb-proto-compiler/parser/char_stream.h b/src/spb-proto-compiler/parser/char_stream.h
index 7d77789..347030f 100644
--- a/src/spb-proto-compiler/parser/char_stream.h
+++ b/src/spb-proto-compiler/parser/char_stream.h
@@ -41,7 +41,7 @@ struct char_stream
         while (p_begin < p_end)
         {
             m_current = *p_begin;
-            if (!skip_white_space || isspace(m_current) == 0)
+            if (!skip_white_space || isspace(static_cast<unsigned char>(m_current)) == 0)
                 return;
 
             p_begin += 1;
@@ -107,7 +107,7 @@ struct char_stream
             p_begin += token.size();
             update_current(false);
             auto next = current_char();
-            if (!isalnum(next) && next != '_')
+            if (!isalnum(static_cast<unsigned char>(next)) && next != '_')
             {
                 update_current(true);
                 return true;
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 05616d5..4e8f897 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -78,7 +78,7 @@ void consume_or_fail(spb::char_stream &stream, std::string_view token)
 
 void skip_white_space_until_new_line(spb::char_stream &stream)
 {
-    while ((isspace(stream.current_char()) != 0) && stream.current_char() != '\n')
+    while ((isspace(static_cast<unsigned char>(stream.current_char())) != 0) && stream.current_char() != '\n')
     {
         stream.consume_current_char(false);
     }
@@ -97,7 +97,7 @@ auto consume_number(spb::char_stream &stream, std::integral auto &number) -> boo
         if (stream.consume('x') || stream.consume('X'))
             base = 16;
 
-        if (base == 8 && !::isdigit(stream.current_char()))
+        if (base == 8 && !::isdigit(static_cast<unsigned char>(stream.current_char())))
             return true;
     }
     auto result = spb_std_emu::from_chars(stream.begin(), stream.end(), number, base);
@@ -284,7 +284,7 @@ void parse_comment_until_new_line(spb::char_stream &stream, proto_comment &comme
 {
     const auto *start = stream.begin();
 
-    if (isalpha(stream.current_char()) == 0)
+    if (isalpha(static_cast<unsigned char>(stream.current_char())) == 0)
     {
         stream.throw_parse_error("expecting identifier(a-zA-Z)");
         return {};
@@ -292,7 +292,7 @@ void parse_comment_until_new_line(spb::char_stream &stream, proto_comment &comme
 
     stream.consume_current_char(false);
     auto current = stream.current_char();
-    while ((current != 0) && (isalnum(current) != 0 || current == '_'))
+    while ((current != 0) && (isalnum(static_cast<unsigned char>(current)) != 0 || current == '_'))
     {
         stream.consume_current_char(false);
         current = stream.current_char();
@@ -468,7 +468,7 @@ void parse_top_level_package(spb::char_stream &stream, proto_base &package, prot
     if (c == '"' || c == '\'')
         return parse_string_literal(stream);
 
-    if (isdigit(c) || c == '+' || c == '-')
+    if (isdigit(static_cast<unsigned char>(c)) || c == '+' || c == '-')
         return parse_int_or_float(stream);
 
     return parse_full_ident(stream).proto_name;
-- 
2.43.0


From 0453e8d5f5190cabb09fd4870958fbd657a43090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:46 +0000
Subject: [PATCH 59/63] fix: a number of bits that does not fit the type, and a
 type of an enum or message field, are errors

---
 src/spb-proto-compiler/ast/ast-types.cpp | 31 ++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index 78ebc56..65c8bc7 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -17,6 +17,7 @@
 #include "spb/pb/wire-types.h"
 #include <algorithm>
 #include <array>
+#include <charconv>
 #include <string_view>
 #include <utility>
 
@@ -175,6 +176,25 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
     return proto_field::Type::NONE;
 }
 
+//- `:bits` has to be a number from 1 to the size of the type
+[[nodiscard]] auto is_valid_bitfield(std::string_view type) -> bool
+{
+    const auto type_name = remove_bitfield(type);
+    if (type_name.size() == type.size())
+        return true;
+
+    const auto number = [](std::string_view text) -> unsigned
+    {
+        auto result = 0U;
+        const auto [ptr, ec] = std::from_chars(text.data(), text.data() + text.size(), result);
+        return ec == std::errc{} && ptr == text.data() + text.size() ? result : 0U;
+    };
+    const auto type_bits = number(type_name.substr(type_name.find_first_of("0123456789")));
+    const auto bits      = number(type.substr(type_name.size() + 1));
+
+    return bits > 0 && bits <= type_bits;
+}
+
 [[nodiscard]] auto get_field_type(const proto_file &file, const proto_field &field)
     -> std::pair<proto_field::Type, proto_field::BitType>
 {
@@ -191,6 +211,9 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
                               std::string("incompatible int type: ") +
                                   std::string(field.type_name.proto_name) + " and " + std::string(name));
         }
+        if (!is_valid_bitfield(name))
+            throw_parse_error(file, name, "invalid number of bits: " + std::string(name));
+
         return {type, field_type};
     }
 
@@ -309,6 +332,14 @@ void resolve_types(const search_ctx &self, proto_field &field)
 {
     const auto [type, bit_type] = resolve_type(self, field, 0);
 
+    //- only numbers can have another int type
+    if (const auto name = field.attributes.type; !name.empty() && bit_type == proto_field::BitType::NONE)
+    {
+        throw_parse_error(self.file, name,
+                          std::string("incompatible int type: ") + std::string(field.type_name.proto_name) +
+                              " and " + std::string(name));
+    }
+
     field.type     = type;
     field.bit_type = bit_type;
 }
-- 
2.43.0


From 52d0cc23721cadb6685ee90d66b565813141aeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 60/63] fix: an int type of a map and a bit-field in a oneof
 are errors, they were ignored

---
 src/spb-proto-compiler/ast/ast-types.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index 65c8bc7..3cf2f8e 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -346,6 +346,9 @@ void resolve_types(const search_ctx &self, proto_field &field)
 
 void resolve_types(const search_ctx &self, proto_map &map)
 {
+    if (const auto name = map.attributes.type; !name.empty())
+        throw_parse_error(self.file, name, "int type can't be used with a map");
+
     resolve_types(self, map.key);
     resolve_types(self, map.value);
 }
@@ -355,6 +358,10 @@ void resolve_types(const search_ctx &self, proto_oneof &oneof)
     for (auto &field : oneof.fields)
     {
         resolve_types(self, field);
+
+        const auto name = field.attributes.type;
+        if (const auto type_name = remove_bitfield(name); type_name.size() != name.size())
+            throw_parse_error(self.file, name, "bitfield can be used only with `required` label");
     }
 }
 
-- 
2.43.0


From 99a1742e5f0f6c66a77acd254abbc5ae6435adf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:29 +0000
Subject: [PATCH 61/63] fix: unknown JSON numbers that are long or out of range
 were rejected, and 'inf' was accepted

---
 include/spb/json/deserialize.hpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 8d79e2b..fe45d7d 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -809,10 +809,33 @@ void ignore_array(auto &stream)
         throw std::runtime_error("expecting ']");
 }
 
+void ignore_digits(auto &stream)
+{
+    auto is_digit = [&] { return stream.current_char() >= '0' && stream.current_char() <= '9'; };
+    if (!is_digit()) [[unlikely]]
+        throw std::runtime_error("invalid number");
+
+    do
+    {
+        stream.skip(1);
+    } while (is_digit());
+}
+
 void ignore_number(auto &stream)
 {
-    double value;
-    deserialize<field_attributes{}>(stream, value);
+    (void)stream.consume('-');
+    ignore_digits(stream);
+    if (stream.consume('.'))
+        ignore_digits(stream);
+
+    if (stream.consume('e') || stream.consume('E'))
+    {
+        if (!stream.consume('-'))
+            (void)stream.consume('+');
+
+        ignore_digits(stream);
+    }
+    stream.skip_white_spaces();
 }
 
 void ignore_bool(auto &stream)
-- 
2.43.0


From 2fbc2d6ef7d73519063fb7df62ca936cc2f1f3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 62/63] fix: the column of an error on the first line of a file
 was one less

---
 src/spb-proto-compiler/parser/char_stream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/parser/char_stream.h b/src/spb-proto-compiler/parser/char_stream.h
index 347030f..e45917d 100644
--- a/src/spb-proto-compiler/parser/char_stream.h
+++ b/src/spb-proto-compiler/parser/char_stream.h
@@ -156,9 +156,9 @@ struct char_stream
         auto parsed = std::string_view(p_start, p_begin - p_start);
 
         if (auto p = parsed.rfind('\n'); p != std::string_view::npos)
-            parsed.remove_prefix(p);
+            parsed.remove_prefix(p + 1);
 
-        return std::max<size_t>(parsed.size(), 1);
+        return parsed.size() + 1;
     }
     [[noreturn]] void throw_parse_error(std::string_view message)
     {
-- 
2.43.0


From 9f385b56ff3c132897a21d749f969e5b5e787c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:52 +0000
Subject: [PATCH 63/63] fix: a wrong type of an enum and a bit-field of an
 optional or repeated field were reported without the name of the file

---
 src/spb-proto-compiler/ast/ast-types.cpp | 27 ++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index 3cf2f8e..14dfaf0 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -344,6 +344,24 @@ void resolve_types(const search_ctx &self, proto_field &field)
     field.bit_type = bit_type;
 }
 
+//- same order of attributes as in the header dumper
+void resolve_types(const search_ctx &self, const proto_enum &my_enum)
+{
+    static constexpr auto enum_types =
+        std::array<std::string_view, 5>{{"int8"sv, "uint8"sv, "int16"sv, "uint16"sv, "int32"sv}};
+
+    for (const auto name : {my_enum.attributes.type, self.message.attributes.enum_, self.file.attributes.enum_})
+    {
+        if (name.empty())
+            continue;
+
+        if (std::find(enum_types.begin(), enum_types.end(), name) == enum_types.end())
+            throw_parse_error(self.file, name, "invalid enum type: " + std::string(name));
+
+        return;
+    }
+}
+
 void resolve_types(const search_ctx &self, proto_map &map)
 {
     if (const auto name = map.attributes.type; !name.empty())
@@ -373,9 +391,18 @@ void resolve_types(const search_ctx &parent, proto_message &message)
         .p_parent = &parent,
     };
 
+    for (const auto &my_enum : message.enums)
+    {
+        resolve_types(ctx, my_enum);
+    }
+
     for (auto &field : message.fields)
     {
         resolve_types(ctx, field);
+
+        const auto name = field.attributes.type;
+        if (field.label != proto_field::Label::NONE && remove_bitfield(name).size() != name.size())
+            throw_parse_error(parent.file, name, "bitfield can be used only with `required` label");
     }
 
     for (auto &map : message.maps)
-- 
2.43.0

