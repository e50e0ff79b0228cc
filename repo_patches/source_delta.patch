From 39fad9366d4b6189c44106faea60cded26041000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:04 +0000
Subject: [PATCH 01/56] fix: card values must not depend on which type was
 queried before or on a previous content

---
 include/boost/astronomy/io/card.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 634532a..fd9233b 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -122,6 +122,7 @@ public:
             std::string card_content = key + "  " + value;
             this->card_ = card_content;
             this->card_.append(80 - card_content.length(),' ');
+            card_cache = cache();
             return;
         }
 
@@ -151,7 +152,8 @@ public:
     template <typename ReturnType>
     ReturnType value() const
     {
-        if (!value_cached()) {
+        // The cache may hold the value in some other type requested earlier
+        if (boost::get<ReturnType>(&card_cache) == nullptr) {
             card_cache =value_imp(boost::type<ReturnType>());
         }
         return boost::get<ReturnType>(card_cache); 
@@ -190,12 +192,6 @@ public:
     const std::string& raw_card() { return card_; }
 
 private:
-    /**
-     * @brief Checks if the value is internally cached
-    */
-    bool value_cached() const { return card_cache.which() != 0; }
-
-
     /**
      * @brief Creates a card from key, value and comment supplied to the method
     */
@@ -211,6 +207,7 @@ private:
             }
 
             this->card_.append(80 - this->card_.length(), ' ');
+            card_cache = cache();
             return;
         }
 
-- 
2.43.0


From 99ae210f369a1bd914a9aecc5846250f59bb3d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:27 +0000
Subject: [PATCH 02/56] fix: card::set_value must keep the 80 character card
 layout with its value indicator

---
 include/boost/astronomy/io/card.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index fd9233b..a4d9851 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -175,15 +175,7 @@ public:
     template<typename DataType>
     void set_value(DataType value)
     {
-        std::string serialized_value = this->serialize_to_fits_format(value);
-
-        if (this->is_card_valid(this->keyword(), serialized_value, "")) { 
-            std::string key = this->keyword(true);
-            this->card_.clear();
-            this->card_.append(key);
-            this->card_.append(serialized_value);
-            card_cache = value;
-        }
+        create_card_impl(this->keyword(), this->serialize_to_fits_format(value));
     }
 
     /**
-- 
2.43.0


From ef8ebf2544bbd9ca3e15caf1a4b7336adee2204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:27 +0000
Subject: [PATCH 03/56] fix: string card values containing a slash or a quote
 were truncated or corrupted

---
 include/boost/astronomy/io/card.hpp                |  4 +++-
 include/boost/astronomy/io/default_card_policy.hpp | 13 +++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index a4d9851..d1a7c14 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -225,7 +225,9 @@ private:
     std::string value_imp(boost::type<std::string>) const {
         std::string val = boost::algorithm::trim_copy(this->extract_value(this->card_));
         if (val[0] == '\'') {
-            return boost::algorithm::trim_copy(std::string(val.begin() + 1, val.end() - 1));
+            std::size_t closing_quote = val.rfind('\'');
+            std::string text = closing_quote == 0 ? val.substr(1) : val.substr(1, closing_quote - 1);
+            return boost::algorithm::replace_all_copy(boost::algorithm::trim_copy(text), "''", "'");
         }
         else {
             return val;
diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index afb075f..188ddc5 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -14,9 +14,11 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <algorithm>
 #include <sstream>
 #include <complex>
+#include <limits>
 #include <boost/lexical_cast.hpp>
 #include <boost/astronomy/exception/fits_exception.hpp>
 #include <boost/astronomy/io/string_conversion_utility.hpp>
+#include <boost/algorithm/string/replace.hpp>
 #include <boost/algorithm/string/trim.hpp>
 #include <boost/blank.hpp>
 #include <boost/mpl/vector.hpp>
@@ -160,7 +162,7 @@ public:
     std::string serialize_to_fits_format(const std::string& value) const {
         std::string generated_string="";
         generated_string += '\'';
-        generated_string += value;
+        generated_string += boost::algorithm::replace_all_copy(value, "'", "''"); // quotes are doubled
         generated_string += '\'';
         return generated_string;
     }
@@ -214,7 +216,14 @@ public:
      * @param[in] fits_card fits card from where the value needs to be extracted
     */
     std::string extract_value(const std::string& fits_card) const {
-        return fits_card.substr(9, fits_card.find('/') - 10);
+        // A slash starts the comment unless it is inside a quoted string
+        bool in_quotes = false;
+        std::size_t value_end = 9;
+        for (; value_end < fits_card.length(); value_end++) {
+            if (fits_card[value_end] == '\'') { in_quotes = !in_quotes; }
+            else if (fits_card[value_end] == '/' && !in_quotes) { break; }
+        }
+        return boost::algorithm::trim_right_copy(fits_card.substr(9, value_end - 9));
     }
 
 private:
-- 
2.43.0


From 2b53cc4f298336167f66df625948a6459a3694f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:27 +0000
Subject: [PATCH 04/56] fix: floating point, complex and string literal card
 values did not read back as written

---
 .../astronomy/io/default_card_policy.hpp      | 36 +++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index 188ddc5..428f100 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -132,7 +132,7 @@ public:
         auto space_pos = std::find(value.begin(), value.end(), ' ');
         if (space_pos != value.end()) {
             std::string real_part(value.begin(), space_pos);
-            std::string imag_part(space_pos + 1, value.end());
+            std::string imag_part = boost::algorithm::trim_copy(std::string(space_pos + 1, value.end()));
 
             return std::complex<T>(parse_to<T>(real_part), parse_to<T>(imag_part));
         }
@@ -155,6 +155,19 @@ public:
         return val;
     }
 
+    /**
+     * @brief Overloaded cases for floating point numbers which keep every digit of the value
+    */
+    std::string serialize_to_fits_format(float value) const { return serialize_floating_point(value); }
+    std::string serialize_to_fits_format(double value) const { return serialize_floating_point(value); }
+
+    /**
+     * @brief Overloaded case for string literals
+    */
+    std::string serialize_to_fits_format(const char* value) const {
+        return serialize_to_fits_format(std::string(value));
+    }
+
     /**
      * @brief Pads the string according to the requirements in FITS standard
      * @param[in] value Value to be serialized and padded according to requirements
@@ -192,7 +205,9 @@ public:
     */
     template<typename T>
     std::string serialize_to_fits_format(std::complex<T> value)const {
-        return serialize_to_fits_format(value.real())+ serialize_to_fits_format(value.imag());        
+        std::string imag_part = serialize_to_fits_format(value.imag());
+        if (imag_part[0] != ' ') { imag_part.insert(0, 1, ' '); } // keeps the two parts separated
+        return serialize_to_fits_format(value.real()) + imag_part;
     }
 
     /**
@@ -228,6 +243,23 @@ public:
 
 private:
 
+    /**
+     * @brief Serializes a floating point number with the fewest digits that read back as the same value
+    */
+    template<typename T>
+    std::string serialize_floating_point(T value) const {
+        std::string val;
+        for (int digits = 6; digits <= std::numeric_limits<T>::max_digits10; digits++) {
+            std::stringstream value_stream;
+            value_stream.precision(digits);
+            value_stream << value;
+            val = value_stream.str();
+            T parsed_value;
+            if (boost::conversion::try_lexical_convert(val, parsed_value) && parsed_value == value) { break; }
+        }
+        return val.length() < 20 ? val.insert(0, 20 - val.length(), ' ') : val;
+    }
+
     /**
      * @brief Checks whether the keyword is in list of reserved keywords
     */
-- 
2.43.0


From dce4efe6e9c40bdfb64c47fe6f98a820322b1c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:27 +0000
Subject: [PATCH 05/56] fix: commentary cards with a short keyword or an
 over-long text were malformed, and their text lost a character

---
 include/boost/astronomy/io/card.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index d1a7c14..6ba6c0f 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -118,8 +118,8 @@ public:
     */
     void create_commentary_card(std::string const& key, std::string const& value)
     {
-        if (this->is_key_valid(key)) {
-            std::string card_content = key + "  " + value;
+        if (this->is_key_valid(key) && value.length() <= 70) {
+            std::string card_content = key + std::string(key.length() < 8 ? 9 - key.length() : 2, ' ') + value;
             this->card_ = card_content;
             this->card_.append(80 - card_content.length(),' ');
             card_cache = cache();
@@ -165,7 +165,8 @@ public:
     */
     std::string value_with_comment() const
     {
-        return boost::algorithm::trim_copy(this->card_.substr(10));
+        // Commentary cards have no value indicator, their text follows the keyword
+        return boost::algorithm::trim_copy(this->card_.substr(this->card_.compare(8, 2, "= ") == 0 ? 10 : 8));
     }
 
     /**
-- 
2.43.0


From 5d86e61df45f08248a2f9f2d30b77e923db63b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:57 +0000
Subject: [PATCH 06/56] fix: a unit ending exactly on a 2880 byte boundary must
 not be followed by an extra record

---
 include/boost/astronomy/io/fits_stream.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index 9d41a05..ae29926 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -148,9 +148,9 @@ namespace boost {namespace astronomy {namespace io {
             std::size_t current_pos = this->file.tellg();
             std::size_t logical_record_size = 2880;
 
-            std::size_t offset = logical_record_size - (current_pos % logical_record_size);
-            std::size_t newpos = (current_pos + offset);
-            return newpos;
+            // A position on a record boundary already is the end of its record
+            std::size_t excess = current_pos % logical_record_size;
+            return excess == 0 ? current_pos : current_pos + (logical_record_size - excess);
         }
     };
 
-- 
2.43.0


From c472180b616ba5ef87206dbc4aff7b9d6dcc5d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:57 +0000
Subject: [PATCH 07/56] fix: a truncated file was read as endless blanks, never
 ending when the END card is missing

---
 include/boost/astronomy/io/fits_stream.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index ae29926..3ca038e 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -8,7 +8,9 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #ifndef BOOST_ASTRONOMY_IO_STREAM_READER_HPP
 #define BOOST_ASTRONOMY_IO_STREAM_READER_HPP
 
+#include<algorithm>
 #include<fstream>
+#include<string>
 #include<boost/astronomy/exception/fits_exception.hpp>
 
 namespace boost {namespace astronomy {namespace io {
@@ -107,10 +109,18 @@ namespace boost {namespace astronomy {namespace io {
         /**
          * @brief Reads num_bytes from the file from current position as a string
          * @param[in] num_bytes Amount of data to be read in bytes
+         * @throw file_reading_exception If the file has less than num_bytes left
         */
         std::string read(std::size_t num_bytes) {
-            std::string data(num_bytes, ' ');
-            this->file.read(&data[0], num_bytes);
+            const std::size_t block_size = 1 << 20; // memory used must not exceed what the file really holds
+            std::string data;
+            while (data.size() < num_bytes) {
+                std::size_t offset = data.size();
+                data.resize(offset + (std::min)(block_size, num_bytes - offset), ' ');
+                if (!this->file.read(&data[offset], data.size() - offset)) {
+                    throw file_reading_exception("Unexpected end of file");
+                }
+            }
             return data;
         }
 
-- 
2.43.0


From 12d433ede0b08503dd24abb78b1e8980cfd7f99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:57 +0000
Subject: [PATCH 08/56] fix: a header without BITPIX, NAXIS or NAXISn was given
 the value of another card, and absent axes were read out of bounds

---
 include/boost/astronomy/io/header.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index 76dcb7e..8cf1ee5 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -92,7 +92,7 @@ public:
         }
         //finding and storing bitpix value
 
-        switch (cards[key_index["BITPIX"]]. template value<int>())
+        switch (this->template value_of<int>("BITPIX"))
         {
         case 8:
             this->bitpix_value = io::bitpix::B8;
@@ -115,13 +115,14 @@ public:
         }
 
         //setting naxis values
-        std::size_t total_dimensions = cards[key_index["NAXIS"]].template value<std::size_t>();
+        std::size_t total_dimensions = this->template value_of<std::size_t>("NAXIS");
+        if (total_dimensions > 999) { throw fits_exception(); } // limit set by the standard
         naxis_.reserve(total_dimensions);
 
         for (std::size_t i = 1; i <= total_dimensions; i++)
         {
-            naxis_.emplace_back(cards[key_index["NAXIS" +
-                boost::lexical_cast<std::string>(i)]].template value<std::size_t>());
+            naxis_.emplace_back(this->template value_of<std::size_t>("NAXIS" +
+                boost::lexical_cast<std::string>(i)));
         }
 
     }
@@ -197,7 +198,7 @@ public:
     */
     std::size_t naxis(std::size_t n = 0) const
     {
-        return this->naxis_[n - 1]; // 1 Based indexing
+        return this->naxis_.at(n - 1); // 1 Based indexing
     }
 
     /**
-- 
2.43.0


From 2f59e6862637488aa44702070eb0a3d938d55398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:23 +0000
Subject: [PATCH 09/56] fix: reading a second header or file with the same
 object kept the content of the first

---
 include/boost/astronomy/io/fits_reader.hpp | 1 +
 include/boost/astronomy/io/header.hpp      | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 67b9d43..896b419 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -80,6 +80,7 @@ namespace boost { namespace astronomy { namespace io {
         */
         void initialize(const std::string& filepath) {
             file_reader.set_file(filepath);
+            hdu_list.clear();
             hdus_control_block.clear();
             hdus_control_block.filepath = filepath;
         }
diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index 8cf1ee5..01c5d3c 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -71,6 +71,9 @@ public:
     template<typename FileReader>
     void read_header(FileReader& file_reader) {
 
+        cards.clear();
+        key_index.clear();
+        naxis_.clear();
         cards.reserve(36); //reserves the space of atleast 1 HDU unit
         std::string card_buffer;
 
-- 
2.43.0


From 011b1e090f4288c4d223eb867fbcf37a77358cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:23 +0000
Subject: [PATCH 10/56] fix: the variable length array area of a binary table
 misplaced the next HDU and was lost when writing

---
 include/boost/astronomy/io/binary_table.hpp |  7 +++++
 include/boost/astronomy/io/header.hpp       | 34 ++++++++++++++++++++-
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index b43218b..30065c1 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -72,6 +72,9 @@ struct basic_binary_table_extension : table_extension<CardPolicy>
          >
     > cached_columns;
 
+private:
+    std::string heap; //! data that follows the rows of the table ( arrays of variable length )
+
 public:
 
     /**
@@ -131,6 +134,7 @@ public:
 
             file_writer.write(row_temp_buffer);
         }
+        file_writer.write(heap);
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
 
@@ -325,6 +329,9 @@ private:
         auto total_fields = this->tfields_;
         auto total_characters_per_row = this->hdu_header.naxis(1);
 
+        auto rows_end = (std::min)(data_buffer.size(), total_rows * total_characters_per_row);
+        this->heap.assign(data_buffer.begin() + rows_end, data_buffer.end());
+
         // Initialize table data matrix with total_rows * total_columns elements of type string
         this->tb_data = typename table_extension<CardPolicy>::table_data(total_rows, std::vector<std::string>(total_fields, std::string()));
 
diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index 01c5d3c..27b92d2 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -15,6 +15,8 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <unordered_map>
 #include <memory>
 #include <fstream>
+#include <limits>
+#include <numeric>
 
 #include <boost/algorithm/string/trim.hpp>
 #include <boost/lexical_cast.hpp>
@@ -212,10 +214,23 @@ public:
 
     /**
      * @brief   Returns the total number of elements in HDU data
+     * @details In extensions this includes the parameters (PCOUNT) and groups (GCOUNT) that follow from the standard
+     * @throws  fits_exception If no file can hold that many elements
     */
     std::size_t data_size() {
         if (naxis_.empty()) { return 0; }
-        return std::accumulate(naxis_.begin(), naxis_.end(), static_cast<std::size_t > (1), std::multiplies<std::size_t>());
+        std::size_t elements = std::accumulate(naxis_.begin(), naxis_.end(), static_cast<std::size_t > (1), checked_multiply);
+        if (contains_keyword("XTENSION")) {
+            if (contains_keyword("PCOUNT")) {
+                std::size_t parameters = value_of<std::size_t>("PCOUNT");
+                if (parameters > max_elements()) { throw fits_exception(); }
+                elements += parameters;
+            }
+            if (contains_keyword("GCOUNT")) {
+                elements = checked_multiply(elements, value_of<std::size_t>("GCOUNT"));
+            }
+        }
+        return elements;
     }
 
     /**
@@ -242,6 +257,23 @@ public:
 
     friend bool operator == (const header<CardPolicy>& lhs, const header<CardPolicy>& rhs);
 
+private:
+    /**
+     * @brief      Number of elements beyond which positions in the file are not representable
+    */
+    static std::size_t max_elements() {
+        return static_cast<std::size_t>((std::numeric_limits<std::streamoff>::max)()) / 16;
+    }
+
+    /**
+     * @brief      Multiplies two element counts
+     * @throws     fits_exception If no file can hold that many elements
+    */
+    static std::size_t checked_multiply(std::size_t lhs, std::size_t rhs) {
+        if (rhs != 0 && lhs > max_elements() / rhs) { throw fits_exception(); }
+        return lhs * rhs;
+    }
+
 };
 }}} //namespace boost::astronomy::io
 
-- 
2.43.0


From 0304f45ceb7856ec6cdd4a7e4a8e0b8df1bba5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:40 +0000
Subject: [PATCH 11/56] fix: width of bit columns and format of variable length
 array columns in binary tables

---
 include/boost/astronomy/io/binary_table.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 30065c1..51ce43f 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -162,7 +162,10 @@ public:
                             return c == '\'' || c == ' ';
                         });
         auto no_of_elements = element_count(form);
-        auto size_type = type_size(get_type(form));
+        auto type = get_type(form);
+        if (type == 'X') { return no_of_elements / 8 + (no_of_elements % 8 != 0); } // bits are packed into bytes
+        auto size_type = type_size(type);
+        if (no_of_elements > (std::numeric_limits<std::size_t>::max)() / size_type) { throw invalid_table_colum_format(); }
         return no_of_elements * size_type;
     }
 
@@ -178,8 +181,11 @@ public:
                             return c == '\'' || c == ' ';
                         });
 
-        return form.length() > 1 ?
-            boost::lexical_cast<std::size_t>(form.substr(0, form.length() - 1)) :
+        // The type code may be followed by additional characters ( e.g. 1PE(20) )
+        std::string repeat_count = form.substr(0, form.find_first_not_of("0123456789"));
+
+        return !repeat_count.empty() ?
+            boost::lexical_cast<std::size_t>(repeat_count) :
             static_cast<std::size_t>(1);
     }
 
@@ -194,7 +200,9 @@ public:
                             return c == '\'' || c == ' ';
                         });
 
-        return form[form.length() - 1];
+        auto type_position = form.find_first_not_of("0123456789");
+        if (type_position == std::string::npos) { throw invalid_table_colum_format(); }
+        return form[type_position];
     }
 
     /**
@@ -303,7 +311,9 @@ private:
             }
             catch (std::out_of_range&) {/*Do Nothing*/ }
 
-            this->col_metadata_[i].total_elements(element_count(this->col_metadata_[i].TFORM()));
+            // Bit arrays are stored (and accessed) as bytes
+            this->col_metadata_[i].total_elements(get_type(this->col_metadata_[i].TFORM()) == 'X' ?
+                column_size(this->col_metadata_[i].TFORM()) : element_count(this->col_metadata_[i].TFORM()));
         }
     }
 
-- 
2.43.0


From 2fcf520b157b2bdf8a3aa87fbfb3fb0c987f4947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:40 +0000
Subject: [PATCH 12/56] fix: binary table cells lost the bytes that look like
 white space

---
 include/boost/astronomy/io/binary_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 51ce43f..653c466 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -357,7 +357,7 @@ private:
             starting_offset = ending_offset;
             ending_offset = starting_offset + column_size(this->col_metadata_[current_column].TFORM());
 
-            this->tb_data[current_row][current_column++] = boost::algorithm::trim_copy(std::string(starting_offset, ending_offset));
+            this->tb_data[current_row][current_column++] = std::string(starting_offset, ending_offset);
             if (current_column % this->tfields_ == 0) {
                 current_row++;
                 current_column = 0;
-- 
2.43.0


From 169a6a55033d84c6e69d6cd4860886a726d1ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:03 +0000
Subject: [PATCH 13/56] fix: table fields that do not fit the row were read out
 of bounds, tables without fields crashed

---
 include/boost/astronomy/io/ascii_table.hpp  | 10 +++++++++-
 include/boost/astronomy/io/binary_table.hpp | 11 ++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 023711b..c9f2d2d 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -243,13 +243,21 @@ private:
         auto total_fields = this->tfields_;
         auto total_characters_per_row = this->hdu_header.naxis(1);
 
+        // Every field must lie inside the row
+        for (auto& metadata : this->col_metadata_) {
+            auto field_size = this->column_size(metadata.TFORM());
+            if (metadata.TBCOL() == 0 || metadata.TBCOL() > total_characters_per_row ||
+                field_size > total_characters_per_row - (metadata.TBCOL() - 1)) { throw column_exception(); }
+        }
+        if (total_rows * total_characters_per_row > data_buffer.size()) { throw column_exception(); }
+
         // Initialize table data matrix with total_rows * total_columns elements of type string
         this->tb_data = typename table_extension<CardPolicy>::table_data(total_rows, std::vector<std::string>(total_fields, std::string()));
 
         auto current_row = 0;
         auto current_column = 0;
 
-        while(current_row< total_rows) {
+        while(total_fields != 0 && current_row< total_rows) {
             auto starting_offset = data_buffer.begin()+ current_row * total_characters_per_row + this->col_metadata_[current_column].TBCOL() - 1;
             auto ending_offset = starting_offset + this->column_size(this->col_metadata_[current_column].TFORM());
 
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 653c466..88858df 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -339,6 +339,15 @@ private:
         auto total_fields = this->tfields_;
         auto total_characters_per_row = this->hdu_header.naxis(1);
 
+        // The fields must fill the row
+        std::size_t remaining_characters = total_characters_per_row;
+        for (auto& metadata : this->col_metadata_) {
+            auto field_size = column_size(metadata.TFORM());
+            if (field_size > remaining_characters) { throw column_exception(); }
+            remaining_characters -= field_size;
+        }
+        if (remaining_characters != 0 || total_rows * total_characters_per_row > data_buffer.size()) { throw column_exception(); }
+
         auto rows_end = (std::min)(data_buffer.size(), total_rows * total_characters_per_row);
         this->heap.assign(data_buffer.begin() + rows_end, data_buffer.end());
 
@@ -352,7 +361,7 @@ private:
         auto starting_offset = data_buffer.begin();
         auto ending_offset = starting_offset;
 
-        while (current_row<total_rows) {
+        while (total_fields != 0 && current_row<total_rows) {
 
             starting_offset = ending_offset;
             ending_offset = starting_offset + column_size(this->col_metadata_[current_column].TFORM());
-- 
2.43.0


From 4789fae44bf6cfa02298c128e1c2fed487718013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:03 +0000
Subject: [PATCH 14/56] fix: ASCII tables must be written with every field at
 its own column

---
 include/boost/astronomy/io/ascii_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index c9f2d2d..79f61f5 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -147,12 +147,12 @@ public:
 
         for (int row = 0; row < this->tb_data.size(); row++) {
 
-            std::string row_temp_buffer = "";
+            std::string row_temp_buffer(this->hdu_header.naxis(1), ' ');
 
             for (int col = 0; col < this->tb_data[row].size(); col++) {
                 std::string padding = std::string(this->column_size(this->col_metadata_[col].TFORM())-this->tb_data[row][col].length(),' ');
                 std::string final_data = padding + this->tb_data[row][col];
-                row_temp_buffer += final_data;
+                row_temp_buffer.replace(this->col_metadata_[col].TBCOL() - 1, final_data.length(), final_data);
             }
             file_writer.write(row_temp_buffer);
         }
-- 
2.43.0


From ca8092e1b82a59ac239a2b4e60d420d741900992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:03 +0000
Subject: [PATCH 15/56] fix: column views of a copied table referred to the
 data of the original, views stayed stale after set_data

---
 include/boost/astronomy/io/ascii_table.hpp  | 12 ++++++++++++
 include/boost/astronomy/io/binary_table.hpp | 13 +++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 79f61f5..dcbd2ee 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -57,6 +57,17 @@ public:
     */
     basic_ascii_table() {}
 
+    /**
+     * @brief      Copies the table without the cached column views as those refer to the data of the other table
+    */
+    basic_ascii_table(basic_ascii_table const& other) : table_extension<CardPolicy>(other) {}
+
+    basic_ascii_table& operator=(basic_ascii_table const& other) {
+        table_extension<CardPolicy>::operator=(other);
+        this->cached_columns.clear();
+        return *this;
+    }
+
     /**
      * @brief      Constructs an ASCII Table object from header and data buffer
      * @param[in]  other Header part of ASCII table
@@ -71,6 +82,7 @@ public:
      * @param[in]  data_buffer Data of ASCII Table
     */
     void set_data(const std::string& data_buffer) {
+        this->cached_columns.clear();
         this->col_metadata_.clear();
         this->col_metadata_.resize(this->tfields_);
         set_ascii_table_info(data_buffer);
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 88858df..c917ed1 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -83,6 +83,18 @@ public:
     basic_binary_table_extension() {}
 
     
+    /**
+     * @brief      Copies the table without the cached column views as those refer to the data of the other table
+    */
+    basic_binary_table_extension(basic_binary_table_extension const& other) : table_extension<CardPolicy>(other), heap(other.heap) {}
+
+    basic_binary_table_extension& operator=(basic_binary_table_extension const& other) {
+        table_extension<CardPolicy>::operator=(other);
+        heap = other.heap;
+        this->cached_columns.clear();
+        return *this;
+    }
+
     /**
     * @brief      Constructs an Binary Table object from header and data buffer
     * @param[in]  other Header part of Binary table
@@ -146,6 +158,7 @@ public:
      * @param[in]  data_buffer Data of Binary Table
     */
     void set_data(const std::string& data_buffer) {
+        this->cached_columns.clear();
         this->col_metadata_.clear();
         this->col_metadata_.resize(this->tfields_);
         set_binary_table_info(data_buffer);
-- 
2.43.0


From 9edf1875c372a8c598aff457a3cc5142c34166c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:03 +0000
Subject: [PATCH 16/56] fix: column metadata absent from the header was left
 uninitialized

---
 include/boost/astronomy/io/column.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/column.hpp b/include/boost/astronomy/io/column.hpp
index e374b12..b6a5b10 100644
--- a/include/boost/astronomy/io/column.hpp
+++ b/include/boost/astronomy/io/column.hpp
@@ -39,7 +39,7 @@ public:
     /**
      * @brief   Constructs a standalone object of column structure
     */
-    column(){}
+    column() : index_(0), start(0), scale(1), zero(0), total_elem_field(0) {}
 
     /**
      * @details     Constructs a column object and sets the value for
-- 
2.43.0


From 825406bd1fac8a6a336eb3cffeea62ddb6522307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:03 +0000
Subject: [PATCH 17/56] fix: pixels of 8 bit images are unsigned and were all
 read as zero

---
 include/boost/astronomy/io/bitpix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/bitpix.hpp b/include/boost/astronomy/io/bitpix.hpp
index 855fd53..143799e 100644
--- a/include/boost/astronomy/io/bitpix.hpp
+++ b/include/boost/astronomy/io/bitpix.hpp
@@ -64,7 +64,7 @@ enum class bitpix
 
  template<>
  struct bitpix_type<bitpix::B8> {
-     typedef typename boost::int8_t underlying_type;
+     typedef typename boost::uint8_t underlying_type;
  };
 
  template<>
-- 
2.43.0


From e33766454f21307008b1caf7dae3b568a643e479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:03 +0000
Subject: [PATCH 18/56] fix: collections of array descriptors were decoded from
 overlapping positions

---
 include/boost/astronomy/io/binary_data_converter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/binary_data_converter.hpp b/include/boost/astronomy/io/binary_data_converter.hpp
index 10466ce..d2829ae 100644
--- a/include/boost/astronomy/io/binary_data_converter.hpp
+++ b/include/boost/astronomy/io/binary_data_converter.hpp
@@ -325,9 +325,9 @@ namespace boost{namespace astronomy{namespace io{
         for (std::size_t i = 0; i < num_elements; i++) {
             values.emplace_back(
                 boost::endian::big_to_native(
-                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + i)),
+                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + 2 * i)),
                 boost::endian::big_to_native(
-                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + i +
+                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + 2 * i +
                         1)));
         }
         return values;
-- 
2.43.0


From 248de6c2fbea728551365ae73a5b71fb6c306600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:58 +0000
Subject: [PATCH 19/56] fix: reading a binary field as a type wider than the
 field read out of bounds

---
 .../astronomy/io/binary_data_converter.hpp     | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/boost/astronomy/io/binary_data_converter.hpp b/include/boost/astronomy/io/binary_data_converter.hpp
index d2829ae..87dcb4c 100644
--- a/include/boost/astronomy/io/binary_data_converter.hpp
+++ b/include/boost/astronomy/io/binary_data_converter.hpp
@@ -19,6 +19,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include<boost/cstdfloat.hpp>
 #include<boost/endian/conversion.hpp>
 #include<boost/astronomy/io/column.hpp>
+#include<boost/astronomy/exception/fits_exception.hpp>
 #include<boost/lexical_cast.hpp>
 #include<type_traits>
 
@@ -64,6 +65,7 @@ namespace boost{namespace astronomy{namespace io{
         */
         template <typename NumericType, typename AssumeType = NumericType>
         static NumericType element_to_numeric(const std::string& element) {
+            require_bytes(element, sizeof(NumericType), 1);
             AssumeType temp = boost::endian::big_to_native(
                 *reinterpret_cast<const AssumeType*>(element.c_str()));
 
@@ -82,6 +84,7 @@ namespace boost{namespace astronomy{namespace io{
         template <typename NumericType, typename AssumeType = NumericType>
         static std::vector<NumericType> elements_to_numeric_collection(
             const std::string& elements, std::size_t no_elements) {
+            require_bytes(elements, sizeof(NumericType), no_elements);
             std::vector<NumericType> values;
             values.resize(no_elements);
 
@@ -110,6 +113,7 @@ namespace boost{namespace astronomy{namespace io{
         */
         template <typename ComplexType, typename AssumeType = ComplexType>
         static std::complex<ComplexType> element_to_complex(const std::string& element) {
+            require_bytes(element, sizeof(ComplexType) * 2, 1);
             AssumeType temp_real = boost::endian::big_to_native(
                 *reinterpret_cast<const AssumeType*>(element.c_str()));
 
@@ -135,6 +139,7 @@ namespace boost{namespace astronomy{namespace io{
         static std::vector<std::complex<ComplexType>> elements_to_complex_collection(
             const std::string& elements, std::size_t no_elements) {
 
+            require_bytes(elements, sizeof(ComplexType) * 2, no_elements);
             std::vector<std::complex<ComplexType>> values;
             values.reserve(no_elements);
 
@@ -170,10 +175,21 @@ namespace boost{namespace astronomy{namespace io{
         template <typename ByteType>
         static std::vector<ByteType> elements_to_byte_collection(const std::string& elements,
             std::size_t no_elements) {
+            require_bytes(elements, 1, no_elements);
             return std::vector<ByteType>(elements.begin(),
                 elements.begin() + no_elements);
         }
 
+        /**
+         * @brief  Checks that the data holds at least no_elements elements of the given size
+         * @throws invalid_cast If it does not
+        */
+        static void require_bytes(const std::string& data, std::size_t element_size, std::size_t no_elements) {
+            if (no_elements > data.size() / element_size) {
+                throw invalid_cast("Not enough data for the required Type");
+            }
+        }
+
         /**
         * @brief  Returns the number of elements present in the field array
         * @param[in] format Format of field
@@ -312,6 +328,7 @@ namespace boost{namespace astronomy{namespace io{
     }
     template<>
     std::pair<boost::int32_t, boost::int32_t> binary_data_converter::deserialize_to(const std::string& element,int) {
+        require_bytes(element, sizeof(boost::int32_t) * 2, 1);
         auto x = boost::endian::big_to_native(
             *reinterpret_cast<const boost::int32_t*>(element.c_str()));
         auto y = boost::endian::big_to_native(
@@ -320,6 +337,7 @@ namespace boost{namespace astronomy{namespace io{
     }
     template<>
     std::vector<std::pair<boost::int32_t, boost::int32_t>> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
+        require_bytes(elements, sizeof(boost::int32_t) * 2, num_elements);
         std::vector<std::pair<boost::int32_t, boost::int32_t>> values;
         values.reserve(num_elements);
         for (std::size_t i = 0; i < num_elements; i++) {
-- 
2.43.0


From 242b5e684dae11cadf2b23fc571f748a1a22aab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:58 +0000
Subject: [PATCH 20/56] fix: access to a pixel by position used an
 uninitialized width and mixed up the axes

---
 include/boost/astronomy/io/image.hpp          | 22 ++++++++++++++-----
 .../boost/astronomy/io/image_extension.hpp    |  2 +-
 include/boost/astronomy/io/primary_hdu.hpp    |  2 +-
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/boost/astronomy/io/image.hpp b/include/boost/astronomy/io/image.hpp
index 02ee8d3..9e78ac6 100644
--- a/include/boost/astronomy/io/image.hpp
+++ b/include/boost/astronomy/io/image.hpp
@@ -18,6 +18,8 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <numeric>
 #include <valarray>
 
+#include <string>
+#include <vector>
 #include <boost/endian/conversion.hpp>
 #include <boost/cstdfloat.hpp>
 #include <boost/variant.hpp>
@@ -50,7 +52,7 @@ public:
     /**
      * @brief       Constructs an standalone object of image_buffer
     */
-    image_buffer() {}
+    image_buffer() : width_(0), height_(0) {}
 
     /**
      * @brief       Constructs an image_buffer object by allocating width*height space for buffer
@@ -146,7 +148,7 @@ public:
     */
     PixelType operator() (std::size_t x, std::size_t y)
     {
-        return this->data_[(x*this->width_) + y];
+        return this->data_[(y*this->width_) + x];
     }
 
     /**
@@ -163,11 +165,16 @@ public:
 struct read_image_visitor :public boost::static_visitor<> {
 
     const std::string& data_buffer;
+    std::size_t width;
+    std::size_t height;
 
-    read_image_visitor(const std::string& data_buf) :data_buffer(data_buf) {}
+    read_image_visitor(const std::string& data_buf, std::vector<std::size_t> const& dimensions) :
+        data_buffer(data_buf),
+        width(dimensions.empty() ? 0 : dimensions[0]),
+        height(dimensions.size() < 2 ? 1 : dimensions[1]) {}
 
     template<typename Image_Type>
-    void operator()(Image_Type& type) { type.read_image(data_buffer); }
+    void operator()(Image_Type& type) { type.read_image(data_buffer, width, height); }
 };
 
 /**
@@ -194,8 +201,13 @@ public:
     /**
      * @brief Reads an image from the data buffer
      * @param[in] data_buffer Data associated with image HDU or primary HDU
+     * @param[in] width Number of pixels along the first axis
+     * @param[in] height Number of pixels along the second axis
     */
-    void read_image(const std::string& data_buffer) {
+    void read_image(const std::string& data_buffer, std::size_t width, std::size_t height) {
+
+        this->width_ = width;
+        this->height_ = height;
 
         if (data_buffer.empty()) { return; }
 
diff --git a/include/boost/astronomy/io/image_extension.hpp b/include/boost/astronomy/io/image_extension.hpp
index 4936c9c..5b27808 100644
--- a/include/boost/astronomy/io/image_extension.hpp
+++ b/include/boost/astronomy/io/image_extension.hpp
@@ -94,7 +94,7 @@ private:
      * @param[in] data_buffer Image data in binary form from the file
     */
     void set_image_data(const std::string& data_buffer) {
-        read_image_visitor read_image_visit(data_buffer);
+        read_image_visitor read_image_visit(data_buffer, this->hdu_header.all_naxis());
         boost::apply_visitor(read_image_visit, data);
     }
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index de5da45..0488ba1 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -59,7 +59,7 @@ public:
     basic_primary_hdu( const header<CardPolicy> & other,const std::string& data_buffer):hdu_header(other) {
 
         instantiate_primary_hdu(hdu_header.bitpix());
-        read_image_visitor read_image_visit(data_buffer);
+        read_image_visitor read_image_visit(data_buffer, hdu_header.all_naxis());
         boost::apply_visitor(read_image_visit, data);
         init_primary_hdu();
     }
-- 
2.43.0


From 66f87c089c5832ff848b0d6f0968e69186df96ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:58 +0000
Subject: [PATCH 21/56] fix: statistics of an image without pixels accessed
 memory it does not own, deviation of a single pixel was NaN

---
 include/boost/astronomy/io/image.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/image.hpp b/include/boost/astronomy/io/image.hpp
index 9e78ac6..5c31e9e 100644
--- a/include/boost/astronomy/io/image.hpp
+++ b/include/boost/astronomy/io/image.hpp
@@ -75,6 +75,11 @@ public:
     */
     PixelType max() const
     {
+        if (this->data_.size() == 0)
+        {
+            return PixelType();
+        }
+
         return this->data_.max();
     }
 
@@ -84,6 +89,11 @@ public:
     */
     PixelType min() const
     {
+        if (this->data_.size() == 0)
+        {
+            return PixelType();
+        }
+
         return this->data_.min();
     }
 
@@ -110,6 +120,11 @@ public:
     */
     PixelType median() const
     {
+        if (this->data_.size() == 0)
+        {
+            return PixelType();
+        }
+
         std::valarray<PixelType> sorted_array = this->data_;
         std::nth_element(std::begin(sorted_array),
             std::begin(sorted_array) + sorted_array.size() / 2, std::end(sorted_array));
@@ -124,7 +139,7 @@ public:
     */
     double std_dev() const
     {
-        if (this->data_.size() == 0)
+        if (this->data_.size() < 2)
         {
             return 0;
         }
-- 
2.43.0


From f0d6a47f297b52317b025859cce151070c18205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:58 +0000
Subject: [PATCH 22/56] fix: EXTNAME and EXTEND are optional, files without
 them could not be read

---
 include/boost/astronomy/io/extension_hdu.hpp | 5 ++++-
 include/boost/astronomy/io/primary_hdu.hpp   | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/io/extension_hdu.hpp b/include/boost/astronomy/io/extension_hdu.hpp
index a2f59f9..77cb063 100644
--- a/include/boost/astronomy/io/extension_hdu.hpp
+++ b/include/boost/astronomy/io/extension_hdu.hpp
@@ -58,7 +58,10 @@ private:
     void set_extension_info() {
         gcount = hdu_header.template value_of<int>("GCOUNT");
         pcount = hdu_header.template value_of<int>("PCOUNT");
-        extname = hdu_header.template value_of<std::string>("EXTNAME");
+        try {
+            extname = hdu_header.template value_of<std::string>("EXTNAME");
+        }
+        catch (std::out_of_range&) {/*EXTNAME is optional*/ }
     }
 };
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index 0488ba1..9823fe1 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -32,8 +32,8 @@ template<typename CardPolicy,typename Converter>
 struct basic_primary_hdu
 {
 protected:
-    bool simple; //!Stores the value of SIMPLE
-    bool extend; //!Stores the value of EXTEND
+    bool simple = false; //!Stores the value of SIMPLE
+    bool extend = false; //!Stores the value of EXTEND
     typedef boost::variant<
         image<bitpix::B8,Converter>,
         image<bitpix::B16,Converter>,
@@ -125,7 +125,7 @@ private:
     void init_primary_hdu() {
 
         simple = hdu_header.template value_of<bool>("SIMPLE");
-        extend = hdu_header.template value_of<bool>("EXTEND");
+        extend = hdu_header.contains_keyword("EXTEND") && hdu_header.template value_of<bool>("EXTEND");
     }
 
     /**
-- 
2.43.0


From 643b17f60706b735d7f82dc3c30ecdffa946d8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:58 +0000
Subject: [PATCH 23/56] fix: image and binary table data must be filled up with
 zeros

---
 include/boost/astronomy/io/binary_table.hpp    | 2 +-
 include/boost/astronomy/io/image_extension.hpp | 2 +-
 include/boost/astronomy/io/primary_hdu.hpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index c917ed1..8310f80 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -150,7 +150,7 @@ public:
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
 
-        file_writer.write(std::string(logical_record_end_pos - current_write_pos, ' '));
+        file_writer.write(std::string(logical_record_end_pos - current_write_pos, '\0'));
     }
 
     /**
diff --git a/include/boost/astronomy/io/image_extension.hpp b/include/boost/astronomy/io/image_extension.hpp
index 5b27808..cd45df6 100644
--- a/include/boost/astronomy/io/image_extension.hpp
+++ b/include/boost/astronomy/io/image_extension.hpp
@@ -85,7 +85,7 @@ public:
         file_writer.write(image_data);
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
-        file_writer.write(std::string(logical_record_end_pos - current_write_pos, ' '));
+        file_writer.write(std::string(logical_record_end_pos - current_write_pos, '\0'));
     }
 
 private:
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index 9823fe1..20e800e 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -94,7 +94,7 @@ public:
         file_writer.write(image_data);
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
-        file_writer.write(std::string(logical_record_end_pos - current_write_pos, ' '));
+        file_writer.write(std::string(logical_record_end_pos - current_write_pos, '\0'));
     }
 
 
-- 
2.43.0


From 1a2271e7bc2ed4d416cca6f8052d85f22e2d807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:58 +0000
Subject: [PATCH 24/56] fix: failures to create or write the file were not
 reported

---
 include/boost/astronomy/exception/fits_exception.hpp | 9 +++++++++
 include/boost/astronomy/io/fits_reader.hpp           | 9 ++++++++-
 include/boost/astronomy/io/fits_stream.hpp           | 4 +++-
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/exception/fits_exception.hpp b/include/boost/astronomy/exception/fits_exception.hpp
index e799c9c..a3c9566 100644
--- a/include/boost/astronomy/exception/fits_exception.hpp
+++ b/include/boost/astronomy/exception/fits_exception.hpp
@@ -109,6 +109,15 @@ namespace boost
             }
 
         };
+        class file_writing_exception : public fits_exception {
+            std::string message;
+        public:
+            file_writing_exception(const std::string& error_message):message(error_message) {}
+            const char* what() const noexcept override {
+                return message.c_str();
+            }
+        };
+
         class column_not_found_exception : public fits_exception {
             std::string message;
         public:
diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 896b419..76fdd91 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -131,15 +131,22 @@ namespace boost { namespace astronomy { namespace io {
          * @brief Writes all the HDU's Header and Data information to the file
          * @param[in] file_path Path where the file resides
          * @note The HDUs are written in the order they are stored
+         * @throws file_writing_exception If the file could not be written completely
         */
         void write_to(const std::string& file_path) {
             FileReader file_writer;
-            file_writer.create_file(file_path);
+            if (!file_writer.create_file(file_path)) {
+                throw file_writing_exception("Cannot Create File");
+            }
             typename ExtensionsSupported::template writer_visitor<FileReader> writer_visitor(file_writer);
 
             for (auto& hdu : hdu_list) {
             boost::apply_visitor(writer_visitor, hdu);
             }
+
+            if (!file_writer.close()) {
+                throw file_writing_exception("Cannot Write File");
+            }
         }
 
 
diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index 3ca038e..aaddd7d 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -134,9 +134,11 @@ namespace boost {namespace astronomy {namespace io {
 
         /**
          * @brief Closes the file if opened
+         * @return Returns false if this or any operation on the file since it was opened failed
         */
-        void close() {
+        bool close() {
             this->file.close();
+            return !this->file.fail();
         }
 
         /**
-- 
2.43.0


From 6c74a849f509046a3cde18f0f2aaa191df6c3ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:07 +0000
Subject: [PATCH 25/56] fix: asking for image data of another pixel type
 dereferenced a null pointer

---
 include/boost/astronomy/io/image_extension.hpp | 2 +-
 include/boost/astronomy/io/primary_hdu.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/image_extension.hpp b/include/boost/astronomy/io/image_extension.hpp
index cd45df6..69058df 100644
--- a/include/boost/astronomy/io/image_extension.hpp
+++ b/include/boost/astronomy/io/image_extension.hpp
@@ -66,7 +66,7 @@ public:
     */
 
     template<bitpix DT>
-    image<DT,Converter> get_data() const { return *boost::get<image<DT,Converter>>(&this->data); }
+    image<DT,Converter> get_data() const { return boost::get<image<DT,Converter>>(this->data); }
 
 
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index 20e800e..e34e5fe 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -78,7 +78,7 @@ public:
     */
 
     template<bitpix DT>
-    image<DT,Converter> get_data() const { return *boost::get<image<DT,Converter>>(&this->data); }
+    image<DT,Converter> get_data() const { return boost::get<image<DT,Converter>>(this->data); }
 
     /**
      * @brief Writes the entire HDU ( header, image_data ) into the file
-- 
2.43.0


From 265edcfc6681f723cbf83a868491085979f26170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:07 +0000
Subject: [PATCH 26/56] fix: number of table fields read from the file is
 bounded by the standard

---
 include/boost/astronomy/io/table_extension.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/astronomy/io/table_extension.hpp b/include/boost/astronomy/io/table_extension.hpp
index e184c9a..13d08e3 100644
--- a/include/boost/astronomy/io/table_extension.hpp
+++ b/include/boost/astronomy/io/table_extension.hpp
@@ -100,6 +100,7 @@ public:
     */
     void set_table_extension_info() {
         this->tfields_ = this->hdu_header.template value_of<std::size_t>("TFIELDS");
+        if (this->tfields_ > 999) { throw column_exception(); } // limit set by the standard
         this->col_metadata_.resize(this->tfields_);
     }
 
-- 
2.43.0


From 963e2bc95767fe9278023310ac73eee3faf8a08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:14 +0000
Subject: [PATCH 27/56] fix: numbers with the FITS double precision exponent
 letter D could not be read

---
 include/boost/astronomy/io/string_conversion_utility.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index 632d624..3738789 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -10,6 +10,9 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 
 #include <sstream>
 #include <limits>
+#include <algorithm>
+#include <string>
+#include <type_traits>
 #include <boost/lexical_cast.hpp>
 #include <boost/hana/eval_if.hpp>
 #include <boost/astronomy/exception/fits_exception.hpp>
@@ -34,6 +37,12 @@ namespace boost{namespace astronomy{namespace io{
         template<typename T>
         static T deserialize_to(const std::string& convert_str, int) {
             try {
+                // Double precision numbers may have D as exponent letter
+                if (std::is_floating_point<T>::value) {
+                    std::string number = convert_str;
+                    std::replace(number.begin(), number.end(), 'D', 'E');
+                    return boost::lexical_cast<T>(number);
+                }
                 return boost::lexical_cast<T>(convert_str);
             }
             catch (bad_lexical_cast&) {
-- 
2.43.0


From 327eb7c48c510693d4aedf168fed9b4e9a1ffb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:53 +0000
Subject: [PATCH 28/56] fix: text columns of ASCII tables could not be edited

---
 include/boost/astronomy/io/string_conversion_utility.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index 3738789..3af8430 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -69,6 +69,11 @@ namespace boost{namespace astronomy{namespace io{
                     });
         }
 
+        /**
+         * @brief Overloaded case for text
+        */
+        static std::string serialize(const std::string& value) { return value; }
+
     };
 
 
-- 
2.43.0


From 1f0dad1cc60000fbf714bc90c3299dfce5f2482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:45 +0000
Subject: [PATCH 29/56] fix: a decimal_hour made from hours, minutes and
 seconds reported 0h 0m 0s

---
 include/boost/astronomy/time/parser.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/time/parser.hpp b/include/boost/astronomy/time/parser.hpp
index 926bf7c..6c2d025 100644
--- a/include/boost/astronomy/time/parser.hpp
+++ b/include/boost/astronomy/time/parser.hpp
@@ -36,9 +36,8 @@ public:
       seconds = secondsRemainder;
     }
 
-    decimal_hour(double const& h,double const& m,double const& s){
-      dh = h + m/60 + s/(60*60);
-    }
+    decimal_hour(double const& h,double const& m,double const& s)
+      : decimal_hour(h + m/60 + s/(60*60)) {}
 
     double get() const{
         return dh;
-- 
2.43.0


From 247885f5a71cfbf67f3db7c248789e304e51d9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:45 +0000
Subject: [PATCH 30/56] fix: the Gregorian calendar starts on 1582 October 15,
 not on October 2

---
 include/boost/astronomy/time/time_conversions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/time/time_conversions.hpp b/include/boost/astronomy/time/time_conversions.hpp
index ca35717..07f1fb9 100644
--- a/include/boost/astronomy/time/time_conversions.hpp
+++ b/include/boost/astronomy/time/time_conversions.hpp
@@ -56,8 +56,8 @@ double julian_date(boost::posix_time::ptime t)
 
     //Calculate B, check if the date is later than 1582 October 15
     double B;
-    boost::gregorian::date dt1(1582, boost::gregorian::Oct , 1);
-    if ( dt > dt1 )
+    boost::gregorian::date dt1(1582, boost::gregorian::Oct , 15);
+    if ( dt >= dt1 )
     {
         double A = floor(yprime / 100);
         B = 2 - A + floor(A / 4);
-- 
2.43.0


From bf0e389f02fddee28af898f5e5e0c5bf58c94bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:45 +0000
Subject: [PATCH 31/56] fix: sidereal time ignored the fraction of the second

---
 include/boost/astronomy/time/time_conversions.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/time/time_conversions.hpp b/include/boost/astronomy/time/time_conversions.hpp
index 07f1fb9..88fb706 100644
--- a/include/boost/astronomy/time/time_conversions.hpp
+++ b/include/boost/astronomy/time/time_conversions.hpp
@@ -104,7 +104,9 @@ decimal_hour GST(boost::posix_time::ptime t)
     T0 = T0 - 24.0 * floor(T0/24.0);
 
     //Convert UT to decimal hours
-    double UT = ((t.time_of_day().seconds())/60.0 + t.time_of_day().minutes())/60.0 + t.time_of_day().hours();
+    double seconds = t.time_of_day().seconds() +
+        static_cast<double>(t.time_of_day().fractional_seconds()) / t.time_of_day().ticks_per_second();
+    double UT = (seconds/60.0 + t.time_of_day().minutes())/60.0 + t.time_of_day().hours();
 
     //Multiply UT by 1.002737909
     double A = UT * 1.002737909;
-- 
2.43.0


From 25460b7a2e6fe225b9878099a3d3a2eca70a8400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:45 +0000
Subject: [PATCH 32/56] fix: coordinates extracted at a pole could be NaN

---
 include/boost/astronomy/coordinate/utility/utility.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/utility/utility.hpp b/include/boost/astronomy/coordinate/utility/utility.hpp
index 685066c..680a2f2 100644
--- a/include/boost/astronomy/coordinate/utility/utility.hpp
+++ b/include/boost/astronomy/coordinate/utility/utility.hpp
@@ -296,7 +296,8 @@ struct extract_coordinates{
     double p = column_vector(2,0);
 
     theta = atan2(n,m);
-    phi = asin(p);
+    //rounding may leave the sine slightly outside of its range
+    phi = asin(std::fmax(-1.0, std::fmin(1.0, p)));
   }
 
   pair<angle_radian,angle_radian> get_coordinates() const{
-- 
2.43.0


From 76ad55ab3f90a4e8ccf773e5d9492272a8df0abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:45 +0000
Subject: [PATCH 33/56] fix: proper motion was returned in radians whatever the
 unit of the quantity

---
 include/boost/astronomy/coordinate/ref_frame/base_frame.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
index 74d46d1..451b4d3 100644
--- a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
@@ -60,8 +60,8 @@ public:
     {
         return std::make_tuple
         (
-            Differential::quantity1::from_value(bg::get<0>(motion.get_differential())),
-            Differential::quantity2::from_value(bg::get<1>(motion.get_differential()))
+            motion.get_dlat(),
+            motion.get_dlon_coslat()
         );
     }
 
-- 
2.43.0


From efa7781173d01d3fbbc76eb9147422846901dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:45 +0000
Subject: [PATCH 34/56] fix: observation time of a CIRS frame could not be
 accessed

---
 include/boost/astronomy/coordinate/ref_frame/cirs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/cirs.hpp b/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
index 975a88c..8cd4313 100644
--- a/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
@@ -65,12 +65,12 @@ public:
 
     boost::posix_time::ptime get_obs_time() const
     {
-        return this->obstime;
+        return this->obs_time;
     }
 
     void set_obs_time(boost::posix_time::ptime const& time)
     {
-        this->obstime = time;
+        this->obs_time = time;
     }
 };
 
-- 
2.43.0


From f32175e3472fdbeaafed2f9f673c129f902b30d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:45 +0000
Subject: [PATCH 35/56] fix: azimuth and supergalactic longitude could not be
 set

---
 include/boost/astronomy/coordinate/coord_sys/alt_az.hpp        | 2 +-
 include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp b/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
index 02d1150..408f738 100644
--- a/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
@@ -229,7 +229,7 @@ public:
     }
 
     //!sets value of azimuth component of the coordinate
-    void set_az(typename Representation::quantity3 const& az)
+    void set_az(typename Representation::quantity2 const& az)
     {
         this->data.set_lon(az);
     }
diff --git a/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp b/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
index 37203f1..0b8e8aa 100644
--- a/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
@@ -202,7 +202,7 @@ public:
     }
 
     //!sets value of component sgl of the supergalactic coordinate
-    void set_sgl(typename Representation::quantity2 const& sgl) const
+    void set_sgl(typename Representation::quantity2 const& sgl)
     {
         this->data.set_lon(sgl);
     }
-- 
2.43.0


From a0d1797557949edb14da1e65786d86d1e4380c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:06 +0000
Subject: [PATCH 36/56] fix: angular separation took latitudes for azimuths and
 was NaN for some equal points

---
 .../coordinate/ref_frame/base_frame.hpp        | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
index 451b4d3..333b345 100644
--- a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
@@ -105,10 +105,20 @@ public:
     //!angular separation between two coordinates in radians
     bu::quantity<bu::si::plane_angle> get_angular_separation(base_frame const& other) const
     {
-        return bu::quantity<bu::si::plane_angle>::from_value(
-            std::acos((dot(this->data, other.get_data()) /
-                (magnitude(this->data) * magnitude(other.get_data()))).value())
-        );
+        //the components of a frame are latitude and longitude
+        typedef bu::quantity<bu::si::plane_angle> angle;
+        double const lat1 = static_cast<angle>(this->data.get_lat()).value();
+        double const lat2 = static_cast<angle>(other.get_data().get_lat()).value();
+        double const dlon = static_cast<angle>(other.get_data().get_lon()).value() -
+            static_cast<angle>(this->data.get_lon()).value();
+
+        double const x = std::cos(lat2) * std::sin(dlon);
+        double const y = std::cos(lat1) * std::sin(lat2) -
+            std::sin(lat1) * std::cos(lat2) * std::cos(dlon);
+        double const z = std::sin(lat1) * std::sin(lat2) +
+            std::cos(lat1) * std::cos(lat2) * std::cos(dlon);
+
+        return angle::from_value(std::atan2(std::hypot(x, y), z));
     }
 
 };
-- 
2.43.0


From 2c1f193d25c2f9f5fd2d9268372df57e5a3d9dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:06 +0000
Subject: [PATCH 37/56] fix: spherical_coslat_differential lost or ignored the
 cos(lat) factor when converted, added or multiplied

---
 .../diff/spherical_coslat_differential.hpp    | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
index 9c0ab4f..e10dc87 100644
--- a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
@@ -243,8 +243,7 @@ public:
     >
     operator +(Addend const& addend) const
     {
-        auto cartesian1 = make_cartesian_differential
-            <CoordinateType, DistQuantity, DistQuantity, DistQuantity>(this->diff);
+        auto cartesian1 = make_cartesian_differential(*this);
         auto cartesian2 = make_cartesian_differential(addend);
 
         auto temp = cartesian1 + cartesian2;
@@ -269,7 +268,7 @@ public:
     {
 
         spherical_coslat_differential
-            <CoordinateType, LatQuantity, LonQuantity, DistQuantity> temp(this->diff);
+            <CoordinateType, LatQuantity, LonQuantity, DistQuantity> temp(*this);
 
         spherical_coslat_differential
         <
@@ -449,16 +448,22 @@ auto make_spherical_coslat_differential
     auto temp = make_spherical_differential(other);
     typedef decltype(temp) spherical_type;
 
-    temp.set_dlon(temp.get_dlon() * cos(static_cast<bu::quantity
-        <bu::si::plane_angle, typename spherical_type::type>>(temp.get_dlat()).value()));
+    typedef bu::quantity<bu::si::plane_angle, typename spherical_type::type> angle_type;
+
+    temp.set_dlon(temp.get_dlon() * cos(static_cast<angle_type>(temp.get_dlat()).value()));
 
     return spherical_coslat_differential
         <
             typename spherical_type::type,
-            bu::quantity<bu::si::plane_angle, typename spherical_type::type>,
-            bu::quantity<bu::si::plane_angle, typename spherical_type::type>,
+            angle_type,
+            angle_type,
             typename spherical_type::quantity3
-        >(temp.get_differential());
+        >
+        (
+            static_cast<angle_type>(temp.get_dlat()),
+            static_cast<angle_type>(temp.get_dlon()),
+            temp.get_ddist()
+        );
 }
 
 //!constructs cartesian object from spherical_coslat_differential
-- 
2.43.0


From 686cef012d0c805b2f41f89071426e01ebcba13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:30 +0000
Subject: [PATCH 38/56] fix: angles of a zero vector converted to a spherical
 system were uninitialized

---
 include/boost/astronomy/coordinate/diff/base_differential.hpp  | 2 +-
 include/boost/astronomy/coordinate/rep/base_representation.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/diff/base_differential.hpp b/include/boost/astronomy/coordinate/diff/base_differential.hpp
index eccb035..eeb619c 100644
--- a/include/boost/astronomy/coordinate/diff/base_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/base_differential.hpp
@@ -40,7 +40,7 @@ struct base_differential
         "DimensionCount is expected to be 2 or 3");
     ///@endcond
 protected:
-    bg::model::point<CoordinateType, DimensionCount, CoordinateSystem> diff;
+    bg::model::point<CoordinateType, DimensionCount, CoordinateSystem> diff{};
 
 public:
 
diff --git a/include/boost/astronomy/coordinate/rep/base_representation.hpp b/include/boost/astronomy/coordinate/rep/base_representation.hpp
index 5b522f4..12f3c87 100644
--- a/include/boost/astronomy/coordinate/rep/base_representation.hpp
+++ b/include/boost/astronomy/coordinate/rep/base_representation.hpp
@@ -42,7 +42,7 @@ struct base_representation
     ///@endcond
 
 protected:
-    bg::model::point<CoordinateType, DimensionCount, CoordinateSystem> point;
+    bg::model::point<CoordinateType, DimensionCount, CoordinateSystem> point{};
 
 public:
 
-- 
2.43.0


From 8db3c7a7657ea536392e4b40638235d97eee0ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:30 +0000
Subject: [PATCH 39/56] fix: galactic to equatorial conversion was not the
 inverse of equatorial to galactic

---
 .../boost/astronomy/coordinate/utility/utility.hpp   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/astronomy/coordinate/utility/utility.hpp b/include/boost/astronomy/coordinate/utility/utility.hpp
index 680a2f2..9506c25 100644
--- a/include/boost/astronomy/coordinate/utility/utility.hpp
+++ b/include/boost/astronomy/coordinate/utility/utility.hpp
@@ -228,13 +228,13 @@ struct galactic_to_ra_dec
 
   galactic_to_ra_dec(){
     conv(0,0) = -0.0669887;
-    conv(0,1) = 0.8727558;
-    conv(0,2) = -0.4835389;
-    conv(1,0) = -0.4927285;
+    conv(0,1) = 0.4927285;
+    conv(0,2) = -0.8676008;
+    conv(1,0) = -0.8727558;
     conv(1,1) = -0.4503470;
-    conv(1,2) = -0.7445846;
-    conv(2,0) = -0.8676008;
-    conv(2,1) = 0.1883746;
+    conv(1,2) = -0.1883746;
+    conv(2,0) = -0.4835389;
+    conv(2,1) = 0.7445846;
     conv(2,2) = 0.4601998;
   }
 
-- 
2.43.0


From acf19e69abb601996afeea74153bed5a62ecfa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:12 +0000
Subject: [PATCH 40/56] fix: galactic and equatorial coordinates could not be
 made from components in different units

---
 .../astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp    | 4 ++--
 .../astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp    | 4 ++--
 .../boost/astronomy/coordinate/coord_sys/galactic_coord.hpp   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
index efd18b4..9035981 100644
--- a/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
@@ -153,8 +153,8 @@ template
 equatorial_ha_coord
 <
     CoordinateType,
-    Declination<Unit1, CoordinateType>,
-    HourAngleQuantity<Unit2, CoordinateType>
+    HourAngleQuantity<Unit2, CoordinateType>,
+    Declination<Unit1, CoordinateType>
 > make_equatorial_ha_coord
 (
     HourAngleQuantity<Unit2, CoordinateType> const &Ha,
diff --git a/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
index 974e921..56d579e 100644
--- a/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
@@ -151,8 +151,8 @@ template
 equatorial_ra_coord
 <
   CoordinateType,
-  Declination<Unit1, CoordinateType>,
-  RightAscensionQuantity<Unit2, CoordinateType>
+  RightAscensionQuantity<Unit2, CoordinateType>,
+  Declination<Unit1, CoordinateType>
 > make_equatorial_ra_coord
 (
     RightAscensionQuantity<Unit2, CoordinateType> const &Ra,
diff --git a/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
index 9b75d39..f593c60 100644
--- a/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
@@ -154,8 +154,8 @@ template
 galactic_coord
 <
     CoordinateType,
-    LonQuantity<Unit1, CoordinateType>,
-    LatQuantity<Unit2, CoordinateType>
+    LatQuantity<Unit2, CoordinateType>,
+    LonQuantity<Unit1, CoordinateType>
 > make_galactic_coord
 (
         LatQuantity<Unit2, CoordinateType> const &Lat,
-- 
2.43.0


From d46b881ce39314e79b2c9f1328c3f27ee18e91ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:11 +0000
Subject: [PATCH 41/56] fix: declared table sizes that overflow were read out
 of bounds, rows without characters took memory

---
 include/boost/astronomy/io/ascii_table.hpp  | 5 ++++-
 include/boost/astronomy/io/binary_table.hpp | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index dcbd2ee..9b9e503 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -261,7 +261,10 @@ private:
             if (metadata.TBCOL() == 0 || metadata.TBCOL() > total_characters_per_row ||
                 field_size > total_characters_per_row - (metadata.TBCOL() - 1)) { throw column_exception(); }
         }
-        if (total_rows * total_characters_per_row > data_buffer.size()) { throw column_exception(); }
+
+        // Rows without characters hold no data
+        if (total_characters_per_row == 0) { total_rows = 0; }
+        else if (total_rows > data_buffer.size() / total_characters_per_row) { throw column_exception(); }
 
         // Initialize table data matrix with total_rows * total_columns elements of type string
         this->tb_data = typename table_extension<CardPolicy>::table_data(total_rows, std::vector<std::string>(total_fields, std::string()));
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 8310f80..05fa132 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -359,7 +359,11 @@ private:
             if (field_size > remaining_characters) { throw column_exception(); }
             remaining_characters -= field_size;
         }
-        if (remaining_characters != 0 || total_rows * total_characters_per_row > data_buffer.size()) { throw column_exception(); }
+        if (remaining_characters != 0) { throw column_exception(); }
+
+        // Rows without characters hold no data
+        if (total_characters_per_row == 0) { total_rows = 0; }
+        else if (total_rows > data_buffer.size() / total_characters_per_row) { throw column_exception(); }
 
         auto rows_end = (std::min)(data_buffer.size(), total_rows * total_characters_per_row);
         this->heap.assign(data_buffer.begin() + rows_end, data_buffer.end());
-- 
2.43.0


From 250c0e4a80398055af127b51a050e5eaaf85bb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:49 +0000
Subject: [PATCH 42/56] fix: assigning one field of a column view to another
 did nothing

---
 include/boost/astronomy/io/column_data.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/astronomy/io/column_data.hpp b/include/boost/astronomy/io/column_data.hpp
index f14f387..53b125a 100644
--- a/include/boost/astronomy/io/column_data.hpp
+++ b/include/boost/astronomy/io/column_data.hpp
@@ -39,6 +39,13 @@ private:
 public:
     Proxy(DataType val, column_view<DataType,Converter>* callbck_ptr, int row) : value(val), callback_ptr(callbck_ptr),index(row){}
 
+    Proxy(Proxy const&) = default;
+
+    /**
+     * @brief Assigns the value of another field to this field
+    */
+    DataType operator = (Proxy const& other) { return *this = other.value; }
+
     /**
      * @brief Returns the value stored in the proxy
      * @note  This converter operator gets executed at the time of Reading a value ( Right Side of expr )
-- 
2.43.0


From 826dd063f625833ffd0b6304f65b129994708416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:31 +0000
Subject: [PATCH 43/56] fix: column views kept values that were changed through
 another view of the column

---
 include/boost/astronomy/io/column_data.hpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/include/boost/astronomy/io/column_data.hpp b/include/boost/astronomy/io/column_data.hpp
index 53b125a..3a75605 100644
--- a/include/boost/astronomy/io/column_data.hpp
+++ b/include/boost/astronomy/io/column_data.hpp
@@ -53,7 +53,7 @@ public:
     operator DataType () const  { return value; }
 
     /**
-     * @brief Updates the value of field both in cache and main table structure
+     * @brief Updates the value of field in the main table structure
      * @param[in] value Replacement value for the old value
     */
     DataType operator = (DataType value)  {
@@ -71,7 +71,6 @@ template<typename DataType,typename Converter>
 struct column_view:column{
 private:
     std::vector<std::vector<std::string>>* table_ref;
-    std::unordered_map<int, DataType> cached_index;
 public:
     /**
      * @brief Default constructor for storage
@@ -152,7 +151,6 @@ public:
      * @brief Updates the element at perticular row of the associated column in HDU table
     */
     void update_value(int row, DataType new_value){
-        cached_index[row] = new_value;
         (*table_ref)[row][this->index()-1] = Converter::serialize(new_value);
     }
 
@@ -161,16 +159,9 @@ public:
     * @param[in] row_number The row in which the element resides
    */
     Proxy<DataType,Converter> operator [](int row_number) {
-
-        auto cached_iter = cached_index.find(row_number);
-        
-        if (cached_iter != cached_index.end()) {
-            return Proxy<DataType,Converter>(cached_iter->second, this,row_number);
-        }
-
-        auto raw_data_str = (*table_ref)[row_number][this->index()-1];
-        cached_index.emplace(row_number, Converter::template deserialize_to<DataType>(raw_data_str,this->total_elements()));
-        return Proxy<DataType,Converter>(cached_index.find(row_number)->second, this,row_number);
+        // The value is always taken from the table, which other views may have changed
+        auto const& raw_data_str = (*table_ref)[row_number][this->index()-1];
+        return Proxy<DataType,Converter>(Converter::template deserialize_to<DataType>(raw_data_str,this->total_elements()), this,row_number);
     }
 
 };
-- 
2.43.0


From 8a685d1be06cd19a4d63f7b588b0d3db496d170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:31 +0000
Subject: [PATCH 44/56] fix: array fields set to another number of elements
 made a corrupt file

---
 include/boost/astronomy/io/binary_table.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 05fa132..fe80a63 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -141,6 +141,8 @@ public:
             std::string row_temp_buffer = "";
 
             for (int col = 0; col < this->tb_data[row].size(); col++) {
+                // A field of another size would misplace everything that follows
+                if (this->tb_data[row][col].size() != column_size(this->col_metadata_[col].TFORM())) { throw column_exception(); }
                 row_temp_buffer += this->tb_data[row][col];
             }
 
-- 
2.43.0


From 2cfbdcf88c402db7d1c2088362a202da65360711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:03 +0000
Subject: [PATCH 45/56] fix: comparing two headers depended on whether their
 name had been asked for

---
 include/boost/astronomy/io/header.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index 27b92d2..ca45a1b 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -45,7 +45,6 @@ struct header
 protected:
     boost::astronomy::io::bitpix bitpix_value; //! stores the BITPIX value (enum bitpix)
     std::vector<std::size_t> naxis_; //! values of all naxis (NAXIS, NAXIS1, NAXIS2...)
-    std::string hdu_name;
 
     //! Stores the each card in header unit (80 char key value pair)
     std::vector<card<CardPolicy>> cards;
@@ -61,7 +60,6 @@ public:
    bool operator == (const header& other) {
        return bitpix_value == other.bitpix_value &&
            this->naxis_ == other.naxis_ &&
-           this->hdu_name == other.hdu_name &&
            this->cards == other.cards &&
            this->key_index == other.key_index;
    }
@@ -158,8 +156,7 @@ public:
         // Check if its a extension
         try {
 
-            hdu_name = value_of < std::string>("XTENSION");
-            return hdu_name;
+            return value_of < std::string>("XTENSION");
         }
         catch (...) {}
 
-- 
2.43.0


From 50edacf80c6714fda7abddd4558e92a083eefb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:39 +0000
Subject: [PATCH 46/56] fix: a negative number asked for as an unsigned type
 wrapped around

---
 include/boost/astronomy/io/string_conversion_utility.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index 3af8430..7986bee 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -43,7 +43,12 @@ namespace boost{namespace astronomy{namespace io{
                     std::replace(number.begin(), number.end(), 'D', 'E');
                     return boost::lexical_cast<T>(number);
                 }
-                return boost::lexical_cast<T>(convert_str);
+                T number = boost::lexical_cast<T>(convert_str);
+                // lexical_cast wraps a negative number around when the type is unsigned
+                if (std::is_unsigned<T>::value && number != T() && convert_str[0] == '-') {
+                    throw invalid_cast("Cannot convert a negative number to an unsigned Type");
+                }
+                return number;
             }
             catch (bad_lexical_cast&) {
                 throw invalid_cast("Cannot convert from String to the required Type");
-- 
2.43.0


From e97b5a5cc7223c1235421285985e93fb6361bda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:39 +0000
Subject: [PATCH 47/56] fix: leading blanks of a text value were lost

---
 include/boost/astronomy/io/card.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 6ba6c0f..f2484fe 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -228,7 +228,7 @@ private:
         if (val[0] == '\'') {
             std::size_t closing_quote = val.rfind('\'');
             std::string text = closing_quote == 0 ? val.substr(1) : val.substr(1, closing_quote - 1);
-            return boost::algorithm::replace_all_copy(boost::algorithm::trim_copy(text), "''", "'");
+            return boost::algorithm::replace_all_copy(boost::algorithm::trim_right_copy(text), "''", "'");
         }
         else {
             return val;
-- 
2.43.0


From 06989f18e17aa84ab22b22a4580d574a6fa99790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:39 +0000
Subject: [PATCH 48/56] fix: complex card values written as the standard says
 could not be read

---
 include/boost/astronomy/io/default_card_policy.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index 428f100..129fc49 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -129,6 +129,18 @@ public:
     template<typename T>
     std::complex<T> parse_to(const std::string& value, boost::type<std::complex<T>>) const {
 
+        // The standard writes a complex number as (real, imaginary)
+        if (value.length() > 1 && value.front() == '(' && value.back() == ')') {
+            std::size_t comma = value.find(',');
+            if (comma == std::string::npos) {
+                throw boost::astronomy::invalid_cast("Cannot convert to complex number");
+            }
+            return std::complex<T>(
+                parse_to<T>(boost::algorithm::trim_copy(value.substr(1, comma - 1))),
+                parse_to<T>(boost::algorithm::trim_copy(value.substr(comma + 1, value.length() - comma - 2)))
+            );
+        }
+
         auto space_pos = std::find(value.begin(), value.end(), ' ');
         if (space_pos != value.end()) {
             std::string real_part(value.begin(), space_pos);
-- 
2.43.0


From e217bad26aa2dc412224cea80e0b1a0fb4289cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:37 +0000
Subject: [PATCH 49/56] fix: numbers in files were read and written with the
 punctuation of the program's locale

---
 .../astronomy/io/default_card_policy.hpp      |  4 ++-
 .../io/string_conversion_utility.hpp          | 30 +++++++++++++------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index 129fc49..b596d00 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -160,6 +160,7 @@ public:
         std::string val;
 
         std::stringstream value_stream;
+        value_stream.imbue(std::locale::classic());
         value_stream << value;
         val = value_stream.str();
 
@@ -263,11 +264,12 @@ private:
         std::string val;
         for (int digits = 6; digits <= std::numeric_limits<T>::max_digits10; digits++) {
             std::stringstream value_stream;
+            value_stream.imbue(std::locale::classic());
             value_stream.precision(digits);
             value_stream << value;
             val = value_stream.str();
             T parsed_value;
-            if (boost::conversion::try_lexical_convert(val, parsed_value) && parsed_value == value) { break; }
+            if (value_stream >> parsed_value && parsed_value == value) { break; }
         }
         return val.length() < 20 ? val.insert(0, 20 - val.length(), ' ') : val;
     }
diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index 7986bee..465c6bc 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -10,6 +10,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 
 #include <sstream>
 #include <limits>
+#include <locale>
 #include <algorithm>
 #include <string>
 #include <type_traits>
@@ -37,18 +38,28 @@ namespace boost{namespace astronomy{namespace io{
         template<typename T>
         static T deserialize_to(const std::string& convert_str, int) {
             try {
+                if (!std::is_arithmetic<T>::value) { return boost::lexical_cast<T>(convert_str); }
+
                 // Double precision numbers may have D as exponent letter
-                if (std::is_floating_point<T>::value) {
-                    std::string number = convert_str;
-                    std::replace(number.begin(), number.end(), 'D', 'E');
-                    return boost::lexical_cast<T>(number);
+                std::string number = convert_str;
+                if (std::is_floating_point<T>::value) { std::replace(number.begin(), number.end(), 'D', 'E'); }
+
+                // Numbers look the same in every file, whatever the locale of the program is
+                std::istringstream conversion_stream(number);
+                conversion_stream.imbue(std::locale::classic());
+                T value = T();
+                if (conversion_stream >> std::noskipws >> value &&
+                    conversion_stream.peek() == std::istringstream::traits_type::eof()) {
+                    // Reading wraps a negative number around when the type is unsigned
+                    if (std::is_unsigned<T>::value && value != T() && number[0] == '-') {
+                        throw invalid_cast("Cannot convert a negative number to an unsigned Type");
+                    }
+                    return value;
                 }
-                T number = boost::lexical_cast<T>(convert_str);
-                // lexical_cast wraps a negative number around when the type is unsigned
-                if (std::is_unsigned<T>::value && number != T() && convert_str[0] == '-') {
-                    throw invalid_cast("Cannot convert a negative number to an unsigned Type");
+                if (number.find_first_of("0123456789") != std::string::npos) {
+                    throw invalid_cast("Cannot convert from String to the required Type");
                 }
-                return number;
+                return boost::lexical_cast<T>(number); // infinity and not a number
             }
             catch (bad_lexical_cast&) {
                 throw invalid_cast("Cannot convert from String to the required Type");
@@ -69,6 +80,7 @@ namespace boost{namespace astronomy{namespace io{
                         //to_string does not maintain the same rep for floating point numbers causing field size problems
                         //to_string dosent work for custom types as well(although here it is)
                         std::stringstream conversion_stream;
+                        conversion_stream.imbue(std::locale::classic());
                         conversion_stream << value;
                         return conversion_stream.str();
                     });
-- 
2.43.0


From 0c30f4efec0230f994db54193bdc1216a0026039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 50/56] fix: keep the characters between the fields of an ASCII
 table when writing it

---
 include/boost/astronomy/io/ascii_table.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 9b9e503..db3fa3c 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -50,6 +50,8 @@ struct basic_ascii_table : public table_extension<CardPolicy>
         >
     > cached_columns;
 
+    std::string rows_text; //! rows as they were read, for the characters between the fields
+
 public:
 
     /**
@@ -60,10 +62,11 @@ public:
     /**
      * @brief      Copies the table without the cached column views as those refer to the data of the other table
     */
-    basic_ascii_table(basic_ascii_table const& other) : table_extension<CardPolicy>(other) {}
+    basic_ascii_table(basic_ascii_table const& other) : table_extension<CardPolicy>(other), rows_text(other.rows_text) {}
 
     basic_ascii_table& operator=(basic_ascii_table const& other) {
         table_extension<CardPolicy>::operator=(other);
+        rows_text = other.rows_text;
         this->cached_columns.clear();
         return *this;
     }
@@ -160,6 +163,10 @@ public:
         for (int row = 0; row < this->tb_data.size(); row++) {
 
             std::string row_temp_buffer(this->hdu_header.naxis(1), ' ');
+            std::size_t row_start = row * row_temp_buffer.size();
+            if (row_start + row_temp_buffer.size() <= rows_text.size()) {
+                row_temp_buffer = rows_text.substr(row_start, row_temp_buffer.size());
+            }
 
             for (int col = 0; col < this->tb_data[row].size(); col++) {
                 std::string padding = std::string(this->column_size(this->col_metadata_[col].TFORM())-this->tb_data[row][col].length(),' ');
@@ -266,6 +273,8 @@ private:
         if (total_characters_per_row == 0) { total_rows = 0; }
         else if (total_rows > data_buffer.size() / total_characters_per_row) { throw column_exception(); }
 
+        this->rows_text = data_buffer.substr(0, total_rows * total_characters_per_row);
+
         // Initialize table data matrix with total_rows * total_columns elements of type string
         this->tb_data = typename table_extension<CardPolicy>::table_data(total_rows, std::vector<std::string>(total_fields, std::string()));
 
-- 
2.43.0


From a402592cfc00038f98ecd04ff359a1cc862f728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:04 +0000
Subject: [PATCH 51/56] fix: extensions with a parameter count beyond 2 GB
 could not be read

PCOUNT and GCOUNT were taken as int, so a table with a heap larger than
that was refused.
---
 include/boost/astronomy/io/extension_hdu.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/io/extension_hdu.hpp b/include/boost/astronomy/io/extension_hdu.hpp
index 77cb063..29e796d 100644
--- a/include/boost/astronomy/io/extension_hdu.hpp
+++ b/include/boost/astronomy/io/extension_hdu.hpp
@@ -28,8 +28,8 @@ struct extension_hdu
 {
 protected:
     std::string extname;
-    int gcount = 1;
-    int pcount = 0;
+    long long gcount = 1;
+    long long pcount = 0;
     header<CardPolicy> hdu_header;
 
 public:
@@ -56,8 +56,8 @@ private:
      * @brief       Sets the extension_hdu's info from the header
     */
     void set_extension_info() {
-        gcount = hdu_header.template value_of<int>("GCOUNT");
-        pcount = hdu_header.template value_of<int>("PCOUNT");
+        gcount = hdu_header.template value_of<long long>("GCOUNT");
+        pcount = hdu_header.template value_of<long long>("PCOUNT");
         try {
             extname = hdu_header.template value_of<std::string>("EXTNAME");
         }
-- 
2.43.0


From 1d67ce550f5b8e80452a2c9eb09eae89bac740fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:03 +0000
Subject: [PATCH 52/56] fix: a program of two source files that use the library
 could not be linked

Functions and specializations defined in the headers were not inline.
---
 .../astronomy/io/binary_data_converter.hpp    | 44 +++++++++----------
 include/boost/astronomy/io/bitpix.hpp         |  2 +-
 include/boost/astronomy/time/parser.hpp       |  2 +-
 .../boost/astronomy/time/time_conversions.hpp |  6 +--
 4 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/include/boost/astronomy/io/binary_data_converter.hpp b/include/boost/astronomy/io/binary_data_converter.hpp
index 87dcb4c..fef4d3a 100644
--- a/include/boost/astronomy/io/binary_data_converter.hpp
+++ b/include/boost/astronomy/io/binary_data_converter.hpp
@@ -274,11 +274,11 @@ namespace boost{namespace astronomy{namespace io{
         }
     };
 
-    template<>
+    template<> inline
     bool binary_data_converter::deserialize_to(const std::string& element, int) {
         return element[0] == 'T';
     }
-    template<>
+    template<> inline
     std::vector<bool> binary_data_converter::deserialize_to(const std::string& elements,int) {
         std::vector<bool> values;
         for (auto element : elements) {
@@ -287,46 +287,46 @@ namespace boost{namespace astronomy{namespace io{
         return values;
     }
 
-    template<>
+    template<> inline
     boost::int16_t binary_data_converter::deserialize_to(const std::string& element, int) {
         return element_to_numeric<boost::int16_t>(element);
     }
 
-    template<>
+    template<> inline
     std::vector<boost::int16_t> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
         return elements_to_numeric_collection<boost::int16_t>(
             elements, num_elements);
     }
 
-    template<>
+    template<> inline
     boost::int32_t binary_data_converter::deserialize_to(const std::string& element, int) {
         return element_to_numeric<boost::int32_t>(element);
     }
-    template<>
+    template<> inline
     std::vector<boost::int32_t> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
         return binary_data_converter::elements_to_numeric_collection<boost::int32_t>(
             elements, num_elements);
     }
 
-    template<>
+    template<> inline
     boost::float32_t binary_data_converter::deserialize_to(const std::string& element,int) {
         return element_to_numeric<boost::float32_t, boost::int32_t>(element);
     }
-    template<>
+    template<> inline
     std::vector<boost::float32_t> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
         return elements_to_numeric_collection<boost::float32_t, boost::int32_t>(
             elements, num_elements);
     }
-    template<>
+    template<> inline
     boost::float64_t binary_data_converter::deserialize_to(const std::string& element, int) {
         return binary_data_converter::element_to_numeric<boost::float64_t, boost::int64_t>(element);
     }
-    template<>
+    template<> inline
     std::vector<boost::float64_t> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
         return binary_data_converter::elements_to_numeric_collection<boost::float64_t, boost::int64_t>(
             elements, num_elements);
     }
-    template<>
+    template<> inline
     std::pair<boost::int32_t, boost::int32_t> binary_data_converter::deserialize_to(const std::string& element,int) {
         require_bytes(element, sizeof(boost::int32_t) * 2, 1);
         auto x = boost::endian::big_to_native(
@@ -335,7 +335,7 @@ namespace boost{namespace astronomy{namespace io{
             *(reinterpret_cast<const boost::int32_t*>(element.c_str()) + 1));
         return std::make_pair(x, y);
     }
-    template<>
+    template<> inline
     std::vector<std::pair<boost::int32_t, boost::int32_t>> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
         require_bytes(elements, sizeof(boost::int32_t) * 2, num_elements);
         std::vector<std::pair<boost::int32_t, boost::int32_t>> values;
@@ -350,49 +350,49 @@ namespace boost{namespace astronomy{namespace io{
         }
         return values;
     }
-    template<>
+    template<> inline
     std::complex<boost::float32_t> binary_data_converter::deserialize_to(const std::string& element,int) {
         return element_to_complex<boost::float32_t, boost::int32_t>(element);
     }
-    template<>
+    template<> inline
     std::vector<std::complex<boost::float32_t>> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
         return elements_to_complex_collection<boost::float32_t, boost::int32_t>(
             elements, num_elements);
     }
-    template<>
+    template<> inline
     std::complex<boost::float64_t>binary_data_converter::deserialize_to(const std::string& element,int) {
         return element_to_complex<boost::float64_t, boost::int64_t>(element);
     }
-    template<>
+    template<> inline
     std::vector<std::complex<boost::float64_t>> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
         return elements_to_complex_collection<boost::float64_t, boost::int64_t>(
             elements,num_elements);
     }
-    template<>
+    template<> inline
     std::uint8_t binary_data_converter::deserialize_to(const std::string& element, int) {
         return element_to_byte<std::uint8_t>(element);
     }
-    template<>
+    template<> inline
     std::vector<std::uint8_t> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
         return elements_to_byte_collection<std::uint8_t>(
             elements, num_elements);
     }
-    template<>
+    template<> inline
     char binary_data_converter::deserialize_to(const std::string& element, int) {
         return binary_data_converter::element_to_byte<char>(element);
     }
-    template<>
+    template<> inline
     std::vector<char> binary_data_converter::deserialize_to(const std::string& elements,int num_elements) {
         return binary_data_converter::elements_to_byte_collection<char>(
             elements, num_elements);
     }
 
-    template<>
+    template<> inline
     std::string binary_data_converter::serialize(bool value) {
         return value ? std::string(1,'T') : std::string(1,'F');
     }
 
-    template<>
+    template<> inline
     std::string binary_data_converter::serialize(const std::vector<bool>& values) {
         std::string data;
         data.resize(values.size());
diff --git a/include/boost/astronomy/io/bitpix.hpp b/include/boost/astronomy/io/bitpix.hpp
index 143799e..bec700c 100644
--- a/include/boost/astronomy/io/bitpix.hpp
+++ b/include/boost/astronomy/io/bitpix.hpp
@@ -31,7 +31,7 @@ enum class bitpix
  * @brief   Returns the element's size on the basis of its bitpix type
  * @param[in]  bitpix_value The bitpix value associated with the element
 */
- int get_element_size_from_bitpix(bitpix bitpix_value) {
+ inline int get_element_size_from_bitpix(bitpix bitpix_value) {
     switch (bitpix_value)
     {
     case boost::astronomy::io::bitpix::B8:
diff --git a/include/boost/astronomy/time/parser.hpp b/include/boost/astronomy/time/parser.hpp
index 6c2d025..7c8cc19 100644
--- a/include/boost/astronomy/time/parser.hpp
+++ b/include/boost/astronomy/time/parser.hpp
@@ -56,7 +56,7 @@ public:
     }
 };
 
-std::ostream& operator << (std::ostream &out, decimal_hour const& dh)
+inline std::ostream& operator << (std::ostream &out, decimal_hour const& dh)
 {
     std::string time_string = std::to_string(dh.get_hours()) + "h " + std::to_string(dh.get_minutes()) + "m " + std::to_string(dh.get_seconds()) + "s ";
     return out << "Hours: " << time_string;
diff --git a/include/boost/astronomy/time/time_conversions.hpp b/include/boost/astronomy/time/time_conversions.hpp
index 88fb706..a6d65dd 100644
--- a/include/boost/astronomy/time/time_conversions.hpp
+++ b/include/boost/astronomy/time/time_conversions.hpp
@@ -30,7 +30,7 @@ namespace boost { namespace astronomy { namespace time {
  * made on the Greenwich meridian, longitude 0◦.
  */
 
-double julian_date(boost::posix_time::ptime t)
+inline double julian_date(boost::posix_time::ptime t)
 {
     //Get date from UT
     boost::gregorian::date dt = t.date();
@@ -89,7 +89,7 @@ double julian_date(boost::posix_time::ptime t)
     return JD;
 }
 
-decimal_hour GST(boost::posix_time::ptime t)
+inline decimal_hour GST(boost::posix_time::ptime t)
 {
     //Get Julian Day Number
     double JD = julian_date(t);
@@ -123,7 +123,7 @@ decimal_hour GST(boost::posix_time::ptime t)
 enum class DIRECTION {WEST, EAST};
 
 //Local Sidereal Time (LST)
-decimal_hour LST(double longitude, DIRECTION direction, boost::posix_time::ptime t)
+inline decimal_hour LST(double longitude, DIRECTION direction, boost::posix_time::ptime t)
 {
     double gst = GST(t).get();
 
-- 
2.43.0


From 720339c085cb612dc9402d0af73ea676ed25f9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:03 +0000
Subject: [PATCH 53/56] fix: binary_data_converter.hpp used std::uint8_t
 without including cstdint

---
 include/boost/astronomy/io/binary_data_converter.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/astronomy/io/binary_data_converter.hpp b/include/boost/astronomy/io/binary_data_converter.hpp
index fef4d3a..1d3919a 100644
--- a/include/boost/astronomy/io/binary_data_converter.hpp
+++ b/include/boost/astronomy/io/binary_data_converter.hpp
@@ -9,6 +9,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #ifndef BOOST_ASTRONOMY_IO_DATA_CONVERSIONS_HPP
 #define BOOST_ASTRONOMY_IO_DATA_CONVERSIONS_HPP
 
+#include<cstdint>
 #include<vector>
 #include<string>
 #include<cstring>
-- 
2.43.0


From b199cb284bd25a636ea7cc86d10257a28d378611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:17 +0000
Subject: [PATCH 54/56] fix: an image read again from an empty data part kept
 its earlier pixels

---
 include/boost/astronomy/io/image.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/image.hpp b/include/boost/astronomy/io/image.hpp
index 5c31e9e..609c7f5 100644
--- a/include/boost/astronomy/io/image.hpp
+++ b/include/boost/astronomy/io/image.hpp
@@ -224,7 +224,11 @@ public:
         this->width_ = width;
         this->height_ = height;
 
-        if (data_buffer.empty()) { return; }
+        if (data_buffer.empty())
+        {
+            this->data_.resize(0);
+            return;
+        }
 
         auto element_size = get_element_size_from_bitpix(bitpix_val);
         std::string::const_iterator raw_data_iter=data_buffer.begin();
-- 
2.43.0


From 8b84bba810ff643aac89dd8cadde68610abaecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:18 +0000
Subject: [PATCH 55/56] fix: a table whose data was set from an empty buffer
 kept its earlier rows

---
 include/boost/astronomy/io/ascii_table.hpp  | 5 +++++
 include/boost/astronomy/io/binary_table.hpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index db3fa3c..44f2435 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -88,6 +88,11 @@ public:
         this->cached_columns.clear();
         this->col_metadata_.clear();
         this->col_metadata_.resize(this->tfields_);
+        if (data_buffer.empty())
+        {
+            this->tb_data.clear();
+            this->rows_text.clear();
+        }
         set_ascii_table_info(data_buffer);
     }
 
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index fe80a63..0b52043 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -163,6 +163,11 @@ public:
         this->cached_columns.clear();
         this->col_metadata_.clear();
         this->col_metadata_.resize(this->tfields_);
+        if (data_buffer.empty())
+        {
+            this->tb_data.clear();
+            this->heap.clear();
+        }
         set_binary_table_info(data_buffer);
     }
 
-- 
2.43.0


From 78cda701bbf0c722efd970f4c5ba8aacc05982ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:30 +0000
Subject: [PATCH 56/56] fix: the printed form of a decimal hour depended on the
 C locale of the program

---
 include/boost/astronomy/time/parser.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/time/parser.hpp b/include/boost/astronomy/time/parser.hpp
index 7c8cc19..ad4f8e7 100644
--- a/include/boost/astronomy/time/parser.hpp
+++ b/include/boost/astronomy/time/parser.hpp
@@ -10,6 +10,8 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 
 #include <string>
 #include <iostream>
+#include <locale>
+#include <sstream>
 
 using namespace std;
 
@@ -58,8 +60,11 @@ public:
 
 inline std::ostream& operator << (std::ostream &out, decimal_hour const& dh)
 {
-    std::string time_string = std::to_string(dh.get_hours()) + "h " + std::to_string(dh.get_minutes()) + "m " + std::to_string(dh.get_seconds()) + "s ";
-    return out << "Hours: " << time_string;
+    // The text does not depend on the locale of the program
+    std::ostringstream time_string;
+    time_string.imbue(std::locale::classic());
+    time_string << std::fixed << dh.get_hours() << "h " << dh.get_minutes() << "m " << dh.get_seconds() << "s ";
+    return out << "Hours: " << time_string.str();
 }
 
 #endif //BOOST_ASTRONOMY_PARSER_HPP
-- 
2.43.0

