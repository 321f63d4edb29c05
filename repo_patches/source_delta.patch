From 5ab797a3bb5256f99dd449ae3946332cbfa20320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:31 +0000
Subject: [PATCH 01/41] fix: Chinese calendar table: 13th month of eight years
 was one day short

In years -33, 119, 187, 301, 339, 711, 1064 and 1827 the intercalary
thirteenth month was listed with 29 days although the following New Year
falls 30 days after its start;  day_to_dmy( ) never returned for the JD
left between the two years.
---
 chinese.dat | 12 ++++++------
 chinese.h   | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/chinese.dat b/chinese.dat
index e9ee402..69681ad 100644
--- a/chinese.dat
+++ b/chinese.dat
@@ -3,17 +3,17 @@
 �V�k��ڊ��J��Ƣ�N�I��ƛ+͈��mE�u�r��d�����IK��v�����D��%��E�����M��͢I�J��ʛVՈ�©�E���ҍ�����ΰJM��j����jC��&�iG�SG�RG���KU�U��
 �lՈ�ũ���Rw����������V�����ڊ����K��M��M�����VE�kE��ʛ�Ո�ƩɎ��.��Ƣ+M��İm��j��r��d�I�IK��v��J�������E��˛����ͩJ���z����V5��°م��m�ҍ���J�KE��ʒ���j��F�iG�RǛ�ƩSŔ����ʢl5��Ű���Rw��K�%K�UU�VE����ڊ����K����͛*ۈ�̩Z	�kE��ʢԵ�膲ю��n����+E�[��m��j��rK�h�QW�J��ƛ-5����ɔrk��ˢ������JK�������VE��I�م�ҍ��F���JM�SE��
 �ZՈj��ʔ�v�R���ưU���ʊ�ʩlE�iK��K�b�E�)�Uu�VE��
-��Ո�ũ�˔�{����*�*ͰZ��ڲ�ꊫ�E��M��N��N����+E�[��mI�j����hǩQ������ʢ-U��İ�ɛr�������Q[�RM�����J�VE�����E��͛�͈��R���j��
+��Ո�ũ�˔�{����*�*ͰZ��ڲ�ꊫ�E��M��N��N����+E�[��mI�j����hǩQ������ʢ-U��İ�ɛr�������Q[�RM�����J�VE�����E��͛�͈��R���j��
 �Z��lŰꊝԶ�b���N�R�U���ʒ���t�j���K��ǛE��)�UƔ����¢�%���ы��{��M�*�U�ZI�ۂ��J��Ţ�M������J��+�kɔ�r�j��趒���QG�������ME��J��I�r���K��ˢR;�R��ʛU��Vũ�ʔ�u�ԅ��͒�ΰRM�������ZE��J��J��Ɣ����Su�U��
-�j�u�j��dw����I��I��U���Ҋ����E��K��K��˔I��J�Vz�Z	���%���ҍ��=����J��KŰk���Ҋj���F�Q�RG���K�M�����I�tÛ�爩�R���z����U��ZŰ����u�ԅ��M���R�������Z��j��J��ƛ���Ʃ�Ɣ�ʁ�¢k�u�j��d���G�IG��V�UF��������E��k����˛I��JͩV������¢���Űҍ�������J��j�k�������F�Ro�R��ƛK5�U��ʔj���â���˰RK��ڊ���UE��J�����������}�R��ʛV��Z��ʔ�u�䆤���ư����̊�©m���J�jK�d�I�I��v�UJ���m%����˔�w����I˒JͰV���Ԋڂ�Յ��K��M��͔J�J��j�kJ�j��&���R���΁�ƢK��UŰ�ʛjӊ����G�RW�RK��
+�j�u�j��dw����I��I��U���Ҋ����E��K��K��˔I��J�Vz�Z	���%���ҍ��=����J��KŰk���Ҋj���F�Q�RG���K�M�����I�tÛ�爩�R���z����U��ZŰ����u�ԅ��M���R�������Z��j��J��ƛ���Ʃ�Ɣ�ʁ�¢k�u�j��d���G�IG��V�UF��������E��k����˛I��JͩV������¢���Űҍ�������J��j�k�������F�Ro�R��ƛK5�U��ʔj���â���˰RK��ڊ���UE��J�����������}�R��ʛV��Z��ʔ�u�䆤���ư����̊�©m���J�jK�d�I�I��v�UJ���m%����˔�w����IےJͰV���Ԋڂ�Յ��K��M��͔J�J��j�kJ�j��&���R���΁�ƢK��UŰ�ʛjӊ����G�RW�RK��
 �M�UE��ʌ�J��ś�+������%���ʢW�ZŰڊ��Պ䆫�N��-�����L�Z�mE�ꪌjK�dǛI�I��Ɣ�ԁ�¢uE������������IK��z��J��D��%~�E��m��M��͛J�Jͩ�ʔVՁjâ����R���Ί���K��������j�i'~�K�R7�R��
-�U5�V��ʔ����Ţ���Ͱ���%ۊ���VE����ڊ������N��n��F���ZE�mE��ʔ䖃dǢI�Iǰ���+��ĩ���jK������I�J��ڌ�J����%��E��͔������J���z|���Z��jé醖�m�RG��N�J�KE��ʌ���l�i+���Rǔ�ց�ʢU�V��ʛ�Պԅ�����{��M�%�U5~VE��ʌ�J����M������*́+�Z	�m��ʛ�֊d��IG�������+E�k)~���j���K��˛IW�J��ʔ-ՁV��E���ҍ��ۊ���JM��j��ʢZE��*~�F�Ҏ�RG���J�SE��
+�U5�V��ʔ����Ţ���Ͱ���%ۊ���VE����ڊ������N��n��F���ZE�mE��ʔ䖃dǢI�Iǰ���+��ĩ���jK������I�J��ڌ�J����%��E��͔������J���z|���Z��jé醖�m�RG��N�J�KE��ʌ���l�i+���Rǔ�ց�ʢU�V��ʛ�Պԅ�����{��M�%�U5~VE��ʌ�J����M������*́+�Z	�m��ʛ�֊d��IG�������+E�k)~���j���K��˛IW�J��ʔ-ՁV��E���ҍ��ۊ���JM��j��ʢZE��*~�F�Ҏ�RG���J�SE��
 �ZՁlŢiK���R��%׊�ʩU���������E��+~�K�����M�)�UY�Z	��
 ��Ձ�Ţэ��}|���*�+ũ[ɔڪ�ꊤ���N~QG��v��F�-E�k���E�r˔dׁ�ˢI���v|�ʛU5�Vũ������ҍ���J�JM��ʌ���Z�Պ��F��Ɣ��J�U��ʛj5�lũi��Rw�b��EG�SV~UE����������K��K��˔E��*ˢUʍ��z��5��ũэ��}��N�*M�VJ~[���r�ꊫ���N�Q���+�-��I��I�r˛h׊���Q��������UE��j|�������M���R]�R��ʔV5�Z��ʍ�u|�ƛ�.��ΩRM�����ʢjE��J~j��c��bG�I�S��UE��
 �lŁ�E��ˍ�w|���I;�*ͩU������¢Յ��K~�M�����N�J�VJ�k�����&����΍�n|�ƛK5�-��ʔj��t��i��QW~RK������UE�����J�������R����z�ʛV5�Zũ�ʔԵ�Ԇ��N��M~S��������jE�ꊅjK�dǔI�I��ƍ��z��m�������������IK��Z~V�����ڂ��E�ҋ��M��͔J��J�Vʍֲz��&���Ҏ��n��ƢK����|���kËt��iG�RW�RK��
 �K5�U��
 �j�z�ś�+�������ڃ���V����|ڊ�Յ�Ԇ��N��M��E��J�Z%�kE��ʍԶzdǛI/�Iǩ�Ɣ���¢m��j�|�����I�xIK����VJ����e~�E��ˍ�{|�͛J=�Jͩ������¢ن��M~Ҏ�������KE��ʃ���j���iG�RǍ��z�ʛMu�U��ʔlՃ�Ţ���R[~�M��J�U5wVE����ڊ����-����͍&�z�
-�Ze�mE��ʔԶ�d��I���N~����ċ�©m��j���K���I7�I��ʍ-�x���%����˔�ۃ���JM���|���Wŋڂ�ن�ҍ��F���J-�KE��
+�Ze�mE��ʔԶ�d��I���N~����ԋ�©m��j���K���I7�I��ʍ-�x���%����˔�ۃ���JM���|���Wŋڂ�ن�ҍ��F���J-�KE��
 �Z�zj��&���R�����ʢM����|�ʛtE�i+w�K�����M�%�U5�VE��
 ���z�ś�M������&̓��Z��ڊ|ꊝ�F��.wIG��������D�ki~uE�j�d�z�ǛI��I��ʔ-��Ģ�ō��|ҋ���I;wJM�����J�ZE��f~�F��͍��z��Jm�K��
 �Z�lŢ醏R�|R���F�K5wU���ꃵ��t��k~�K��ˍ%�z%�U5�V��ʔ���Ţɍ��]~���*͋�̩ZE���ꊤ���.�IG���*�z+�kI�uE�j˔d׃�ǢI����|���-���iu������ҍ���I;�J��
@@ -22,7 +22,7 @@
 �Եz���N�I��Ɣ+M�-�kɍj�|j˛dG�I7wIG�������-E���~�������z�˛KK�J��ʔV�Z��ʍҍ|ҍ��N�J=wJM��ʅ�ʢZE��j~iK�R��y%�K5�UE��
 �j��Ţ�ˍR�|���EK�S�uU����֊��E��k~�M��͍Ey*�Vʇ[I��
 ����Ƣю���|�ƛ+��Z*wkɔj�r��h�Qw~QG���KyUE�����I��˔���ˢR����|�ʛV���juي���ԅ��N�J]�RM��
-�Vyj�ي�iK�Rǔ��E�Sƍ��z�ʛl��iku���bw����IK�U�~UJ��B��Ew�E��K��M��͔I�*͢Vʍ��z�Յ��muю�������K��[�|���j��Vwh�Qǆ��s��Ku�U��ʍj�z�Û���QWwR�������VE���|ي����y�N��͆��s�ʔVu�j��ʍԶ|dǛɎ��NwS���J��¢m��j�~�����IyI����VJ����e��E��ˍ��|���I���zuV�����¢Յ��m~�N���JyKE�������j��F�i�RǍ��z�ʛK����s�ʔj3�������R�~RM��
+�Vyj�ي�iK�Rǔ��E�Sƍ��z�ʛl��iku���bw����IK�U�~UJ��B��Ew�E��K��M��͔I�*͢Vʍ��z�Յ��muю�������K��[�|���j��Vwh�Qǆ��s��Ku�U��ʍj�z�Û���QWwR�������VE���|ي����y�N��͆��s�ʔVu�j��ʍԶ|dǛɎ��NwS���J��¢m��j�~�����IyI����VJ����e��E��ˍ��|���I���zuV�����¢Յ��m~�N���JyKE�������j��F�i�RǍ��z�ʛK����s�ʔj3�������R�~RM��
 �MUwVE�����J����K��������z�ʛZ���ju�ʔԶ�d��IO���~����L�Zym��j���K��ǔIw�I��ʍ��z���ņ��uҋ������JM���~V���D��Ew�F�����s�ΔJ-�KE��
 �Z�zjÛ�ƆҎuR������ʢK����|���jE�iKw�K�Rǆ%�q�
 �Uu�V��
@@ -54,7 +54,7 @@ t
 ��6rd�I���n��+�y-��Ɇjt�˔�G�IWpI���Z}���5E���uՅ�����s��J���l�ʍV�yZ��ʆ��u�Ɣ���JmpK���
 |�ʛjE��wi��R�%7r%�K~�
 k�
-�lu{���ˆ��u���%��U�nV����}�ʛ�E�ɭw�N���&]r*�V��k�
+�lu{���ˆ��u���%��U�nV����}�ʛ�E�ɭw�N���&]r*�V��k�
 ���{dǛIφ��u�Ɣ+��[�l�ɍjK|d�j�G�I�wIK��
 �+�pUE��
 ~��l���[{�͛J���:t�ʔV����n�ʍ�E|�.i�N�J�wK���J�Z5rjE��
diff --git a/chinese.h b/chinese.h
index 8cf6a90..abda8e1 100644
--- a/chinese.h
+++ b/chinese.h
@@ -125,7 +125,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xca, 0xa2, 0x2d, 0x55, 0x90, 0xd6, 0xc4, 0xb0,
 0xb5, 0xc9, 0x9b, 0x72, 0xab, 0x8a, 0xb4, 0x8b,
 0xab, 0xa8, 0x0b, 0x9a, 0x51, 0x5b, 0x85, 0x52,
-0x4d, 0xa6, 0xa5, 0x8a, 0x94, 0xaa, 0x4a, 0xb4,
+0x4d, 0xa6, 0xa5, 0x9a, 0x94, 0xaa, 0x4a, 0xb4,
 0x56, 0x45, 0x9f, 0xb5, 0x89, 0x8c, 0xd9, 0x45,
 0xad, 0xd4, 0xcd, 0x9b, 0xa8, 0xcd, 0x88, 0xa9,
 0x0e, 0xa8, 0x52, 0x8d, 0x96, 0xa6, 0x6a, 0x83,
@@ -182,7 +182,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xc2, 0xa2, 0x6b, 0xe5, 0x90, 0x75, 0x05, 0xaf,
 0x6a, 0x8b, 0x9d, 0x64, 0x97, 0x8c, 0xa4, 0x47,
 0xad, 0x49, 0x47, 0x98, 0x95, 0x56, 0x85, 0x55,
-0x46, 0xa6, 0xad, 0x82, 0x94, 0xb6, 0x82, 0xb2,
+0x46, 0xa6, 0xad, 0x92, 0x94, 0xb6, 0x82, 0xb2,
 0xb5, 0x45, 0x9f, 0xb2, 0x6b, 0x8e, 0xd2, 0x0b,
 0xaf, 0xa4, 0xcb, 0x9b, 0x49, 0xfb, 0x88, 0x4a,
 0xcd, 0xa9, 0x56, 0x8a, 0x96, 0xb6, 0xb2, 0x81,
@@ -207,7 +207,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x49, 0xef, 0x7f, 0x49, 0x07, 0xa1, 0x95, 0x76,
 0x8e, 0x55, 0x4a, 0xad, 0xb5, 0x02, 0x9a, 0x6d,
 0x25, 0x87, 0xb5, 0x05, 0xa8, 0xb2, 0xcb, 0x94,
-0xa4, 0x77, 0x83, 0xa4, 0x8b, 0xa4, 0x49, 0xcb,
+0xa4, 0x77, 0x83, 0xa4, 0x8b, 0xa4, 0x49, 0xdb,
 0x92, 0x4a, 0xcd, 0xb0, 0x56, 0x8a, 0x9d, 0xb6,
 0xd4, 0x8a, 0xda, 0x82, 0xab, 0xd5, 0x85, 0x96,
 0xd2, 0x4b, 0x85, 0xd2, 0x4d, 0xa6, 0xa4, 0xcd,
@@ -250,7 +250,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x7f, 0xc9, 0x4e, 0x9f, 0x92, 0x6e, 0x8e, 0x95,
 0x46, 0xad, 0xab, 0x0c, 0x9a, 0x5a, 0x45, 0x87,
 0x6d, 0x45, 0xa6, 0xea, 0xca, 0x94, 0xe4, 0x96,
-0x83, 0x64, 0xc7, 0xa2, 0x49, 0x07, 0x91, 0x49,
+0x83, 0x64, 0xc7, 0xa2, 0x49, 0x17, 0x91, 0x49,
 0xc7, 0xb0, 0x95, 0x86, 0x9d, 0x2b, 0x15, 0x89,
 0xb5, 0xc4, 0xa9, 0xb5, 0x85, 0x96, 0x6a, 0x4b,
 0x85, 0xb2, 0x8b, 0xa4, 0xa4, 0x07, 0x93, 0x49,
@@ -264,7 +264,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x4a, 0x0d, 0x80, 0x4b, 0x45, 0x9f, 0xab, 0xca,
 0x8c, 0xad, 0x8a, 0xab, 0x6c, 0x05, 0x9a, 0x69,
 0x2b, 0x87, 0xa9, 0x0b, 0xa8, 0x52, 0xc7, 0x94,
-0xa5, 0xd6, 0x81, 0xa5, 0xca, 0xa2, 0x55, 0x05,
+0xa5, 0xd6, 0x81, 0xa5, 0xca, 0xa2, 0x55, 0x15,
 0x91, 0x56, 0x05, 0xaf, 0xb5, 0xca, 0x9b, 0xb4,
 0xd5, 0x8a, 0xd4, 0x85, 0xab, 0xa9, 0x8b, 0x96,
 0x92, 0x7b, 0x85, 0x92, 0x4d, 0xa6, 0x25, 0x0b,
@@ -404,7 +404,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x0a, 0x9a, 0x5a, 0x65, 0x89, 0x6d, 0x45, 0xa6,
 0xea, 0xca, 0x94, 0xd4, 0xb6, 0x83, 0x64, 0x87,
 0xa4, 0x49, 0x8f, 0x8f, 0x92, 0x4e, 0x7e, 0x95,
-0x86, 0x9d, 0xab, 0xc4, 0x8b, 0xad, 0xc2, 0xa9,
+0x86, 0x9d, 0xab, 0xd4, 0x8b, 0xad, 0xc2, 0xa9,
 0x6d, 0x85, 0x96, 0x6a, 0x8b, 0x85, 0xb2, 0x4b,
 0xa6, 0xa4, 0x07, 0x93, 0x49, 0x37, 0x80, 0x49,
 0x0b, 0xa1, 0x95, 0xca, 0x8d, 0x2d, 0xf5, 0x78,
@@ -536,7 +536,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x4e, 0x77, 0x53, 0x86, 0x96, 0xab, 0x4a, 0x82,
 0xad, 0xc2, 0xa2, 0x6d, 0x85, 0x8f, 0x6a, 0x8b,
 0x7e, 0xaa, 0x8b, 0x9d, 0xa4, 0x07, 0x8c, 0x49,
-0x17, 0x79, 0x49, 0x0b, 0x9a, 0x95, 0x86, 0x86,
+0x17, 0x79, 0x49, 0x0b, 0x9a, 0x95, 0x96, 0x86,
 0x56, 0x4a, 0xa6, 0xb5, 0x02, 0x93, 0xb5, 0x65,
 0x80, 0xd5, 0x45, 0x9f, 0xd2, 0xcb, 0x8d, 0xa4,
 0xbb, 0x7c, 0xa4, 0x8d, 0x9d, 0x49, 0x8d, 0x88,
@@ -822,7 +822,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xab, 0x0a, 0x6b, 0xad, 0x0a, 0x8c, 0x6c, 0x75,
 0x7b, 0xb4, 0x05, 0x9a, 0xa9, 0xcb, 0x86, 0x92,
 0xdb, 0x75, 0x92, 0x8d, 0x96, 0x25, 0x8b, 0x81,
-0x55, 0xba, 0x6e, 0x56, 0x8a, 0x8f, 0xb5, 0xc2,
+0x55, 0xba, 0x6e, 0x56, 0x8a, 0x8f, 0xb5, 0xd2,
 0x7d, 0xda, 0xca, 0x9b, 0xd4, 0x45, 0x8a, 0xc9,
 0xad, 0x77, 0xc9, 0x4e, 0x98, 0x92, 0x0e, 0x85,
 0x26, 0x5d, 0x72, 0x2a, 0x0d, 0x93, 0x56, 0xca,
-- 
2.43.0


From dc911cc6b47173f5bb83938e353fb20340bfb336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:31 +0000
Subject: [PATCH 02/41] fix: Hebrew calendar: a molad at exactly noon also
 postpones New Year

'Molad zaken' applies at 18 hours or later,  not only after 18 hours
(e.g. years 75795, 82082).
---
 date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.cpp b/date.cpp
index 58c1b7c..2455c79 100644
--- a/date.cpp
+++ b/date.cpp
@@ -305,7 +305,7 @@ static void get_hebrew_year_data( const long year, long *days, char *month_data)
             day++;
       else
          {
-         if( halakim > 18L * 1080L)
+         if( halakim >= 18L * 1080L)
             day++;
          if( mod( day, 7L) == 1 || mod( day, 7L) == 4 || mod( day, 7L) == 6L)
             day++;
-- 
2.43.0


From 41f1068b21727492e5c3259ab3a3a23af2433bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:31 +0000
Subject: [PATCH 03/41] fix: Persian calendar: year 2327 got a 12th month of
 126 days

The start of year 2328 is needed to get the length of year 2327,  the
last year supported;  jalali_jd0( ) returned -1 for it.
---
 date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.cpp b/date.cpp
index 2455c79..6cc74df 100644
--- a/date.cpp
+++ b/date.cpp
@@ -470,7 +470,7 @@ static void get_revolutionary_year_data( const long year, long *days,
 static long jalali_jd0( const int jalali_year)
 {
    static const short breaks[12] = { -708, -221,   -3,    6,  394,  720,
-                                      786, 1145, 1635, 1701, 1866, 2328 };
+                                      786, 1145, 1635, 1701, 1866, 2329 };
    static const short deltas[12] = { 1108, 1047,  984, 1249,  952,  891,
                                       930,  866,  869,  844,  848,  852 };
    long rval;
-- 
2.43.0


From 8c12d0268a83c1238ac6089d89886dfbdcd8b376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:13 +0000
Subject: [PATCH 04/41] fix: unpacking a '$' designation within a longer record
 aborted

Only the eleven bytes after the '$' are the name;  an 80-column record
starting with '$' made strlcpy_err( ) end the program.
---
 unpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index ddf3972..4e463b7 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -174,7 +174,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
    if( *packed == '$')         /* Find_Orb extension to allow storing of */
       {                        /* an unpacked name,  up to 11 chars */
       if( obuff)
-         strlcpy_err( obuff, packed + 1, obuff_size);
+         strlcpy( obuff, packed + 1, 12);
       return( OBJ_DESIG_ASTEROID_NUMBERED);     /* fix later... will be a project! */
       }
    for( i = 0; i < 12; i++, mask <<= 1)
-- 
2.43.0


From b8eda006e42b785bdacbb472e39ee5aaef21c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:13 +0000
Subject: [PATCH 05/41] fix: extended provisional desigs: uninitialised read
 and NULL dereference

An invalid extended ('_') packed designation left the output buffer
uninitialised though the caller tests it,  and a valid one was written
even if the caller passed a NULL buffer.
---
 unpack.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index 4e463b7..fdd00f3 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -88,8 +88,12 @@ static int unpack_provisional_packed_desig( char *obuff, const size_t obuff_size
       const int desig_num = get_mutant_hex_value( ibuff + 3, 4);
 
       if( year < 0 || desig_num < 0)
+         {
+         if( obuff)
+            *obuff = '\0';
          rval = -1;
-      else
+         }
+      else if( obuff)
          {
          char letter = 'A' + desig_num % 25;
 
-- 
2.43.0


From 9980c06ed3ea2a10f1d4c88e567ea9089d3b70ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:13 +0000
Subject: [PATCH 06/41] fix: long unpacked designations aborted

'Jupiter LXXXVIII' (J088S) needs 17 bytes,  and a numbered object with an
extended provisional designation,  such as '99999_0ZJ000',  up to 25;
strlcat_err( ) and snprintf_append( ) ended the program for these.
---
 unpack.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unpack.cpp b/unpack.cpp
index fdd00f3..d073fd4 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -173,7 +173,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
    size_t i;
    int mask = 1, digit_mask = 0, space_mask = 0, digit;
    char provisional_desig[40];
-   const size_t obuff_size = 16;
+   const size_t obuff_size = 26;
 
    if( *packed == '$')         /* Find_Orb extension to allow storing of */
       {                        /* an unpacked name,  up to 11 chars */
@@ -255,7 +255,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
             {
             snprintf_err( obuff, 11, "(%d)", num + 620000);
             if( *provisional_desig)
-               snprintf_append( obuff, 24, " %s", provisional_desig);
+               snprintf_append( obuff, obuff_size, " %s", provisional_desig);
             }
          return( OBJ_DESIG_ASTEROID_NUMBERED);
          }
@@ -283,7 +283,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
                   /* and the provisional desig.  We'd like to decipher this */
                   /* as (for the example) "304330 = 2006 SX217".            */
                if( *provisional_desig)
-                  snprintf_append( obuff, 23, " = %s", provisional_desig);
+                  snprintf_append( obuff, obuff_size, " = %s", provisional_desig);
                }
             }
          }
-- 
2.43.0


From 467a362eb0b60c2e739808800400ad3e361912cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:13 +0000
Subject: [PATCH 07/41] fix: natural satellites 100-109 of a year unpacked as
 00-09

---
 unpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index d073fd4..c1ecf39 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -230,7 +230,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
             obuff[7] = packed[8];       /* planet identifier */
             obuff[8] = ' ';
             i = 9;
-            if( digit > 10)
+            if( digit >= 10)
                obuff[i++] = '0' + digit / 10;
             if( digit)
                obuff[i++] = '0' + digit % 10;
-- 
2.43.0


From 1e426e502d39a17f010f5870c6c1c1c98c1c7877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:13 +0000
Subject: [PATCH 08/41] fix: undeciphered names such as '    P junk' unpacked
 as 'P/Pjunk'

If the designation turns out not to be that of a comet,  it's to be stored
'as is',  without the comet prefix.
---
 unpack.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/unpack.cpp b/unpack.cpp
index c1ecf39..a35c793 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -320,12 +320,14 @@ int unpack_mpc_desig( char *obuff, const char *packed)
    if( rval == OBJ_DESIG_OTHER && !memcmp( packed, "    ", 4)
             && strchr( " PCDXA", packed[4]))
       {
+      char *tptr = obuff;
+
       if( obuff && packed[4] != ' ')
          {
-         *obuff++ = packed[4];
-         *obuff++ = '/';
+         *tptr++ = packed[4];
+         *tptr++ = '/';
          }
-      if( !unpack_provisional_packed_desig( obuff, obuff_size, packed + 5))
+      if( !unpack_provisional_packed_desig( tptr, obuff_size, packed + 5))
          rval = ((packed[4] == ' ' || packed[4] == 'A') ?
                                       OBJ_DESIG_ASTEROID_PROVISIONAL
                                     : OBJ_DESIG_COMET_PROVISIONAL);
-- 
2.43.0


From 5e51bab7b7a9e4882354c8281d49eb278fe9d319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:13 +0000
Subject: [PATCH 09/41] fix: unpack_unaligned_mpc_desig( ) left over-long names
 unterminated

---
 unpack.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unpack.cpp b/unpack.cpp
index a35c793..fc2437e 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -383,6 +383,7 @@ int unpack_unaligned_mpc_desig( char *obuff, const char *packed)
    if( len > 12)
       {
       memcpy( obuff, packed, 12);
+      obuff[12] = '\0';
       return( OBJ_DESIG_OTHER);
       }
    memset( aligned, ' ', 12);
-- 
2.43.0


From 8b366a34fd7d7b27b14aa709a3c167bb348a1f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:13 +0000
Subject: [PATCH 10/41] fix: packing overflowed on long strings of digits

'(4294967729)' was packed as (433),  and a sub-designator of ten or more
digits was undefined behavior.
---
 mpc_fmt.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index d0ece99..a9aad14 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -52,7 +52,7 @@ static inline int quick_atoi( const char *iptr)
 {
    int rval = 0;
 
-   while( *iptr >= '0' && *iptr <= '9')
+   while( *iptr >= '0' && *iptr <= '9' && rval < 1000000)
       rval = (rval * 10) + (*iptr++ - '0');
    return( rval);
 }
@@ -725,7 +725,11 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
    packed_desig[12] = '\0';
    i = 0;
    while( isdigit( obj_name[i]))
-      number = (number * 10) + (unsigned)( obj_name[i++] - '0');
+      {
+      if( number < max_number)
+         number = (number * 10) + (unsigned)( obj_name[i] - '0');
+      i++;
+      }
    len = strlen( obj_name);
    if( in_parentheses)
       len--;
-- 
2.43.0


From 25903f8f6a6882d3400aac509eca52a95146a654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:13 +0000
Subject: [PATCH 11/41] fix: designations with sub-designators >= 620 that
 can't be packed

'1995 AB620' was 'successfully' packed with blanks for the number,  and
'C/2010 A620' got null bytes within the twelve-byte result.  Also,
what's left from a failed attempt no longer appears in the '$' form.
---
 mpc_fmt.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index a9aad14..33feac3 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -806,7 +806,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
             packed_desig[10] = int_to_mutant_hex_char( sub_designator % 10);
             packed_desig[9] = int_to_mutant_hex_char( sub_designator / 10);
             }
-         else if( number >= 2000 && number < 2062)
+         else if( number >= 2000 && number < 2062 && isupper( packed_desig[11]))
             {
             int n = (sub_designator - 620) * 25 + packed_desig[11] - 'A';
 
@@ -822,6 +822,8 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
                encode_value_in_mutant_hex( packed_desig + 8, 4, n);
                }
             }
+         else        /* can't be packed : no such extended desigs */
+            mangled_designation = true;
          while( isdigit( obj_name[i]))
             i++;
          if( comet_desig)
@@ -897,6 +899,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
          obj_name -= 2;
          len += 2;
          }
+      memset( packed_desig, ' ', 12);
       if( len <= 7)
          memcpy( packed_desig + 5, obj_name, len);
       else
-- 
2.43.0


From bb0207a6a356a54d54ff68e30af676ca4a6a4f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:13 +0000
Subject: [PATCH 12/41] fix: packing an empty designation read past its end

---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 33feac3..8656050 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -715,7 +715,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
       }
                /* Check for comet-style desigs such as 'P/1995 O1' */
                /* and such.  Leading character can be P, C, X, D, or A. */
-   if( obj_name[1] == '/' && strchr( "PCXDA", *obj_name))
+   if( *obj_name && obj_name[1] == '/' && strchr( "PCXDA", *obj_name))
       {
       comet_desig = *obj_name;
       obj_name += 2;
-- 
2.43.0


From 3e4596fe2e1a0f5caf983d9da72a91382aea7ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:49 +0000
Subject: [PATCH 13/41] fix: malformed %-escape in form data left the buffer
 unterminated and reported success

---
 cgi_func.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 6d95d16..55a5f7b 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -130,7 +130,10 @@ static int get_urlencoded_piece( const char **idata,
             else if( c1 >= 'A' && c1 <= 'F')
                c += c1 - 'A' + 10;
             else                    /* wasn't an hex digit: */
-               return( -1);         /* not supposed to happen */
+               {                    /* not supposed to happen */
+               *buff = '\0';
+               return( -1);
+               }
             }
          }
       *buff++ = (char)c;
@@ -151,6 +154,8 @@ int get_urlencoded_form_data( const char **idata,
    if( get_urlencoded_piece( idata, field, max_field, '=') != '=')
       return( -1);
    c = get_urlencoded_piece( idata, buff, max_buff, '&');
+   if( c == -1)            /* malformed escape sequence */
+      return( -1);
    return( c != '&' && c > 13);
 }
 
-- 
2.43.0


From bbe70cd4bba3786a06469c6ee141284fbcfd284e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:49 +0000
Subject: [PATCH 14/41] fix: lower-case hex digits in URL-encoded form data
 were rejected

---
 cgi_func.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 55a5f7b..e6d1eb6 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -129,6 +129,8 @@ static int get_urlencoded_piece( const char **idata,
                c += c1 - '0';
             else if( c1 >= 'A' && c1 <= 'F')
                c += c1 - 'A' + 10;
+            else if( c1 >= 'a' && c1 <= 'f')
+               c += c1 - 'a' + 10;
             else                    /* wasn't an hex digit: */
                {                    /* not supposed to happen */
                *buff = '\0';
-- 
2.43.0


From ef55c7225295f025d6b6b49c53dd3fc098481de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:06 +0000
Subject: [PATCH 15/41] fix: multipart form data: boundary comparison could
 read past the buffer

---
 cgi_func.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index e6d1eb6..0b90f17 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -195,7 +195,7 @@ int get_multipart_form_data( const char *boundary, char *field,
             return( OVERRUN);
          while( bytes_read < max_len - 1 &&
                  fgets( buff + bytes_read, (int)( max_len - bytes_read), stdin)
-                 && memcmp( buff + bytes_read, boundary, blen))
+                 && strncmp( buff + bytes_read, boundary, blen))
             bytes_read += strlen( buff + bytes_read);
          }
       }
-- 
2.43.0


From d5c95b2ff011425d496561071eb283468c247d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:06 +0000
Subject: [PATCH 16/41] fix: multipart form data: over-long field names
 overflowed the caller's buffer

---
 cgi_func.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 0b90f17..718fb99 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -162,6 +162,7 @@ int get_urlencoded_form_data( const char **idata,
 }
 
 #define OVERRUN         -3
+#define MAX_FIELD_LEN   30
 
 int get_multipart_form_data( const char *boundary, char *field,
                 char *buff, char *filename, const size_t max_len)
@@ -182,6 +183,8 @@ int get_multipart_form_data( const char *boundary, char *field,
       if( strlen( buff) == max_len - 1)
          return( OVERRUN);
       *endptr = '\0';
+      if( strlen( tptr + 6) >= MAX_FIELD_LEN)
+         return( OVERRUN);
       strcpy( field, tptr + 6);
       if( filename && filename_ptr
              && (endptr = strchr( filename_ptr + 10, '"')) != NULL)
@@ -284,7 +287,7 @@ int initialize_cgi_reading( void)
 int get_cgi_data( char *field, char *data, char *filename, const size_t max_data)
 {
    int rval;
-   const size_t max_field = 30;
+   const size_t max_field = MAX_FIELD_LEN;
 
    switch( method)
       {
-- 
2.43.0


From c5670d9456b14ed2bda539a59c594834e951ffa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:14 +0000
Subject: [PATCH 17/41] fix: dates of 15-31 October 1582 in astrometry were
 taken as Julian

---
 mpc_fmt.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 8656050..6ffc740 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -267,8 +267,12 @@ double extract_date_from_mpc_report( const char *buff, unsigned *format)
       }
 
    if( month >= 1 && month <= 12 && rval > 0. && rval < 99.)
-      rval += (double)dmy_to_day( 0, month, year,
-                                    CALENDAR_JULIAN_GREGORIAN) - .5;
+      {
+      const int day = (int)rval;      /* may decide the calendar in Oct 1582 */
+
+      rval += (double)( dmy_to_day( day, month, year,
+                           CALENDAR_JULIAN_GREGORIAN) - day) - .5;
+      }
 
              /* Radar obs are always given to the nearest UTC second. So  */
              /* some rounding is usually required with MPC microday data. */
-- 
2.43.0


From a21dfb49cfc11d375e4419da7521f9a79f88502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:04 +0000
Subject: [PATCH 18/41] fix: packed RA/decs with one decimal (format 307) were
 not recognised

---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 6ffc740..0cf273f 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -363,7 +363,7 @@ static double get_ra_dec( const char *ibuff, int *format, double *precision)
    rval = quick_atof( buff);
    while( isdigit( buff[i]))
       i++;
-   if( i > 7)        /* "packed" highly precise RA/decs described above */
+   if( i > 6)        /* "packed" highly precise RA/decs described above */
       {
       unsigned tval;
       double factor = 1. / 3600.;
-- 
2.43.0


From 68712a5f30800c853609872fc981893e746c5feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:04 +0000
Subject: [PATCH 19/41] fix: quick_strtod( ) overflowed on ten or more digits

---
 mpc_code.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 5a3d6c0..fcbf2a9 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -217,7 +217,7 @@ robust solution.        */
 double quick_strtod( const char *ibuff, const char **endptr)
 {
    bool is_negative = false, got_a_digit = false;
-   int integer_part = 0;
+   double integer_part = 0.;        /* 'int' would overflow at ten digits */
    double rval;
 
    if( endptr)
@@ -234,12 +234,12 @@ double quick_strtod( const char *ibuff, const char **endptr)
    if( *ibuff >= '0' && *ibuff <= '9')
       got_a_digit = true;
    while( *ibuff >= '0' && *ibuff <= '9')
-      integer_part = integer_part * 10 + (*ibuff++ - '0');
+      integer_part = integer_part * 10. + (double)( *ibuff++ - '0');
    if( *ibuff != '.')
-      rval = (double)integer_part;
+      rval = integer_part;
    else
       {
-      int frac_part = 0, divisor = 1;
+      double frac_part = 0., divisor = 1.;
 
       ibuff++;
       if( *ibuff < '0' || *ibuff > '9')
@@ -247,10 +247,10 @@ double quick_strtod( const char *ibuff, const char **endptr)
             return( 0.);
       while( *ibuff >= '0' && *ibuff <= '9')
          {
-         frac_part = frac_part * 10 + (*ibuff++ - '0');
-         divisor *= 10;
+         frac_part = frac_part * 10. + (double)( *ibuff++ - '0');
+         divisor *= 10.;
          }
-      rval = (double)integer_part + (double)frac_part / (double)divisor;
+      rval = integer_part + frac_part / divisor;
       }
    if( endptr)
       *endptr = ibuff;
-- 
2.43.0


From ea5100d5c8f2343b06254f89397dfcb10b38a83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 20/41] fix: full_ctimel: room for the day with up to 15
 decimals

day_str held 15 bytes;  with FULL_CTIME_FEMTODAYS, two digits, a point
and 15 decimals were written to it.
---
 miscell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miscell.cpp b/miscell.cpp
index 90f472b..2a41165 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -384,7 +384,7 @@ void DLL_FUNC full_ctimel( char *buff, long double t2k, const int format)
       {
       char month_str[25];
       char year_str[20];
-      char day_str[15];
+      char day_str[20];
 
       if( format & FULL_CTIME_MONTHS_AS_DIGITS)
          snprintf_err( month_str, sizeof( month_str), (leading_zeroes ? "%02d" : "%2d"), month);
-- 
2.43.0


From f1968a2af48bcfbd7e0453112af6f2c13466a9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 21/41] fix: full_ctimel: JD and MJD were rounded twice with
 FULL_CTIME_ROUNDING

Half a unit was added,  and printf then rounded to nearest:  values were
always rounded up.
---
 miscell.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/miscell.cpp b/miscell.cpp
index 2a41165..2d24d0f 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -322,7 +322,13 @@ void DLL_FUNC full_ctimel( char *buff, long double t2k, const int format)
    for( i = precision; i; i--)
       add_on /= 10.;
    if( format & FULL_CTIME_ROUNDING)
-      add_on *= 0.5 / (double)units;
+      {
+      if( output_format == FULL_CTIME_FORMAT_JD
+                     || output_format == FULL_CTIME_FORMAT_MJD)
+         add_on = 0.;         /* printf will do the rounding */
+      else
+         add_on *= 0.5 / (double)units;
+      }
    else
       add_on *= 0.05 / seconds_per_day;
    t2k += add_on;
-- 
2.43.0


From 6ff9e6d029f4b6047e15a2eb62af1c672d30930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 22/41] fix: full_ctimel: decimal years were not rounded with
 FULL_CTIME_ROUNDING

The half unit added was that of decimal days,  365.25 times too small.
---
 miscell.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/miscell.cpp b/miscell.cpp
index 2d24d0f..a8387c5 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -328,6 +328,8 @@ void DLL_FUNC full_ctimel( char *buff, long double t2k, const int format)
          add_on = 0.;         /* printf will do the rounding */
       else
          add_on *= 0.5 / (double)units;
+      if( output_format == FULL_CTIME_FORMAT_YEAR)
+         add_on *= 365.25;    /* half a unit in the year,  not in the day */
       }
    else
       add_on *= 0.05 / seconds_per_day;
-- 
2.43.0


From 081b359bcc5c2b11176ba10828e3ff89d2d93074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 23/41] fix: get_dec_from_string: refuse declinations over 90
 degrees

bytes_read was zeroed,  then incremented;  callers took that for success.
---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index fcbf2a9..6fe7795 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -692,7 +692,7 @@ double get_dec_from_string( const char *buff, int *bytes_read)
          *bytes_read = 0;
       if( *buff == '-')
          rval = -rval;
-      if( n_fields)
+      if( *bytes_read)
          (*bytes_read)++;
       return( rval * PI / 180.);
       }
-- 
2.43.0


From dd81df1c74f61c31f33ee83eb6613c4c283bec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 24/41] fix: extract_lat_lon: do not step past the end of the
 text

strchr( ) also finds the terminating null:  an angle at the end of the
text,  lacking a compass sign,  led to a read beyond it.
---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 6fe7795..cdcde05 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -563,7 +563,7 @@ static int extract_lat_lon( const char *buff, size_t *bytes_read, double *value)
 /* printf( "From '%s',  got %d, value %f\n", buff, (int)( tptr - buff), *value); */
    if( n_fields && rval == GOT_NOTHING)
       {
-      if( !compass_byte && strchr( compass, *tptr))
+      if( !compass_byte && *tptr && strchr( compass, *tptr))
          {                 /* compass sign after the angle */
          compass_byte = *tptr++;
 /*       printf( "Got byte '%c'; value %f\n", compass_byte, *value); */
-- 
2.43.0


From 434818243d8f3c9d4df7f5d0027aad3adae03a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 25/41] fix: point_to_ellipse: points on the minor axis are
 nearest to its end

The distance was computed from the semimajor axis,  putting an observer
at a pole 21 km too low.
---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index cdcde05..45aa5be 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -167,7 +167,7 @@ double point_to_ellipse( const double a, const double b,
       {
       lat = PI / 2.;
       if( dist)
-         *dist = fy - a;
+         *dist = fy - b;
       }
    else
       {
-- 
2.43.0


From 483172adfe5e763c5d86a095bc24a042d83b095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 26/41] fix: get_mpc_code_info: text of fewer than four bytes
 was read past its end

---
 mpc_code.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 45aa5be..3eca566 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -375,8 +375,9 @@ int get_mpc_code_info( mpc_code_t *cinfo, const char *buff)
       else
          rval = -1;
       }
-   memcpy( cinfo->code, buff, 4);
-   if( buff[3] == ' ')        /* standard 3-character code */
+   for( i = 0; i < 4 && buff[i]; i++)
+      cinfo->code[i] = buff[i];
+   if( cinfo->code[3] == ' ')        /* standard 3-character code */
       cinfo->code[3] = '\0';
    else                       /* 'extended' 4-character code */
       cinfo->code[4] = '\0';
-- 
2.43.0


From 2c6a6a705b4a7dbe296b019cbcd4846a0072e500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 27/41] fix: get_ra_from_string: 'HH MM.mm' is in hours

As the comment says,  both HH MM.mm and HH MM SS.sss are hours;  the
former was taken to be in degrees.
---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 3eca566..4d3a943 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -670,7 +670,7 @@ double get_ra_from_string( const char *buff, int *bytes_read)
    int n_fields;
    double rval = _get_angle( buff, bytes_read, &n_fields);
 
-   if( n_fields > 2)     /* assume HH MM.mm or HH MM SS.sss */
+   if( n_fields > 1)     /* assume HH MM.mm or HH MM SS.sss */
       rval *= 15.;
    if( !n_fields || rval > 360.)
       *bytes_read = 0;
-- 
2.43.0


From babb029f8604eb7ecbd86d51b5b4e8e771ae1ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 28/41] fix: net_name_to_byte_code: 'Gaiadr1' was not
 recognized

It is one of the spellings the comment says is handled.
---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 0cf273f..a85d2b3 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -556,7 +556,7 @@ static void reduce_net_name( char *obuff, const char *ibuff)
          ibuff++;
       else if( ibuff[0] == '.' && ibuff[1] == '0')
          ibuff += 2;
-      else if( ibuff[0] == 'D' && ibuff[1] == 'R')
+      else if( toupper( ibuff[0]) == 'D' && toupper( ibuff[1]) == 'R')
          ibuff += 2;
       else
          *obuff++ = toupper( *ibuff++);
-- 
2.43.0


From 6f14e65e311e12d1ce1200c4e101d0d159f4a2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 29/41] fix: net_name_to_byte_code: buffer overflow for names
 of 80 or more bytes

---
 mpc_fmt.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index a85d2b3..973189e 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -549,9 +549,13 @@ NET Gaia1
 upper/lower case,  and dropping the 'DR' for Gaia,  we've almost
 assuredly got the right catalog.   */
 
+#define MAX_NET_NAME_LEN 80
+
 static void reduce_net_name( char *obuff, const char *ibuff)
 {
-   while( *ibuff)
+   const char *end_ptr = obuff + MAX_NET_NAME_LEN - 1;
+
+   while( *ibuff && obuff < end_ptr)
       if( *ibuff == '-' || *ibuff == ' ')
          ibuff++;
       else if( ibuff[0] == '.' && ibuff[1] == '0')
@@ -565,7 +569,7 @@ static void reduce_net_name( char *obuff, const char *ibuff)
 
 char net_name_to_byte_code( const char *net_name)
 {
-   char net1[80], net2[80], rval = 0;
+   char net1[MAX_NET_NAME_LEN], net2[MAX_NET_NAME_LEN], rval = 0;
    size_t i;
 
    reduce_net_name( net1, net_name);
-- 
2.43.0


From 1b3245f0ec6043464124c3fe5ea9139abf9162b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 30/41] fix: output_angle_to_buff: format 200 (integer ddd) was
 shown in hours, as dd

---
 mpc_fmt2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt2.cpp b/mpc_fmt2.cpp
index dd40a5d..fea3762 100644
--- a/mpc_fmt2.cpp
+++ b/mpc_fmt2.cpp
@@ -51,7 +51,7 @@ void output_angle_to_buff( char *obuff, double angle, int precision)
    if( (precision >= 100 && precision <= 116) /* decimal quantity, dd.dd... */
         || ( precision >= 200 && precision <= 215)) /* decimal ddd.dd... */
       {
-      const int two_digits = (precision <= 200);
+      const int two_digits = (precision < 200);
 
       n_digits_to_show = precision % 100;
       power_mul = ten_to_the_nth( n_digits_to_show);
-- 
2.43.0


From e16ebed4ccc1ebec43403d23c50f228ec98a2a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 31/41] fix: evaluate_delta_t_string( ) read past the end of a
 malformed Delta-T formula

---
 delta_t.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/delta_t.cpp b/delta_t.cpp
index c6ffd21..4bf5f5e 100644
--- a/delta_t.cpp
+++ b/delta_t.cpp
@@ -120,10 +120,10 @@ static int evaluate_delta_t_string( const double year, double *delta_t,
       if( tptr == dt_string || tptr[-1] == ';')
          {
          double year1, year2;
-         int bytes_read;
+         int bytes_read = 0;
 
          if( sscanf( tptr, "%lf,%lf:%n", &year1, &year2, &bytes_read) == 2
-                  && year >= year1 && year < year2)
+                  && bytes_read && year >= year1 && year < year2)
             {
             double offset = 2000., x, power = 1., coeff;
 
@@ -131,14 +131,18 @@ static int evaluate_delta_t_string( const double year, double *delta_t,
             if( *tptr == 'o')
                {
                tptr++;
-               sscanf( tptr, "%lf,%n", &offset, &bytes_read);
-               tptr += bytes_read;
+               if( sscanf( tptr, "%lf%n", &offset, &bytes_read) == 1)
+                  {
+                  tptr += bytes_read;
+                  if( *tptr == ',')
+                     tptr++;
+                  }
                }
             x = (year - offset) / 100.;
             *delta_t = 0.;
             rval = 0;
             while( tptr[-1] != ';' && *tptr
-                     && sscanf( tptr, "%lf%n", &coeff, &bytes_read))
+                     && sscanf( tptr, "%lf%n", &coeff, &bytes_read) == 1)
                {
                *delta_t += power * coeff;
                power *= x;
-- 
2.43.0


From 22e44c9f18118931e0054e2755055d12380b7d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 32/41] fix: tdb_minus_utc( ) added TDB-TDT in days to TD-UTC
 in seconds

---
 delta_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delta_t.cpp b/delta_t.cpp
index 4bf5f5e..384e333 100644
--- a/delta_t.cpp
+++ b/delta_t.cpp
@@ -465,5 +465,5 @@ double DLL_FUNC tdb_minus_utc( const double jd_utc)
 {
    const double t_cen = (jd_utc - J2000) / 36525.;
 
-   return( tdb_minus_tdt( t_cen) / seconds_per_day + td_minus_utc( jd_utc));
+   return( tdb_minus_tdt( t_cen) + td_minus_utc( jd_utc));
 }
-- 
2.43.0


From 79a0f126226854a0b3d1b66592f12b8fd1af81d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 33/41] fix: setup_ecliptic_precession( ) multiplied the two
 matrices in the wrong order

Going from year_from to year_to (neither of them 2000) is going from
year_from to J2000,  then from J2000 to year_to;  the matrix of the second
step has to be on the left.
---
 precess.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/precess.cpp b/precess.cpp
index 25138f2..a9a26b8 100644
--- a/precess.cpp
+++ b/precess.cpp
@@ -188,9 +188,9 @@ int DLL_FUNC setup_ecliptic_precession( double DLLPTR *matrix,
          setup_ecliptic_precession_from_j2000( tmatrix, year_to);
          for( i = 0; i < 3; i++)
             for( j = 0; j < 3; j++)
-               product[j + i * 3] = matrix[i * 3    ] * tmatrix[j]
-                                  + matrix[i * 3 + 1] * tmatrix[j + 3]
-                                  + matrix[i * 3 + 2] * tmatrix[j + 6];
+               product[j + i * 3] = tmatrix[i * 3    ] * matrix[j]
+                                  + tmatrix[i * 3 + 1] * matrix[j + 3]
+                                  + tmatrix[i * 3 + 2] * matrix[j + 6];
          memcpy( matrix, product, 9 * sizeof( double));
          }
       }
-- 
2.43.0


From d18e7142f640f84e796158f8cf873a123e8d8218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:56 +0000
Subject: [PATCH 34/41] fix: cubic term of the general precession in longitude
 was ten times too large

Lieske (1977),  Meeus (21.5):  p = 5029.0966 t + 1.11113 t^2 - .000006 t^3.
---
 precess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/precess.cpp b/precess.cpp
index a9a26b8..1f72b47 100644
--- a/precess.cpp
+++ b/precess.cpp
@@ -90,7 +90,7 @@ static int setup_ecliptic_precession_from_j2000( double DLLPTR *matrix, const do
    const double eta = t * (47.0029 * S2R + (-.03302 * S2R + 6.e-5 * S2R * t) * t);
    const double pie = 174.876384 * PI / 180. -
            t * (869.8089 * S2R - .03536 * S2R * t);
-   const double p = t * (5029.0966 * S2R + (1.11113 * S2R - 6.e-5 * S2R * t) * t);
+   const double p = t * (5029.0966 * S2R + (1.11113 * S2R - 6.e-6 * S2R * t) * t);
 
    set_identity_matrix( matrix);
 #ifdef UNNECESSARY_MATH
-- 
2.43.0


From ceeea3979b3e56969a5e5f9a93866bae8ce9f1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:43 +0000
Subject: [PATCH 35/41] fix: get_time_from_string(): room for the spaces
 inserted between letters and digits

With spaces inserted,  a text of up to 79 characters could overrun the
80-byte buffer by one,  or have its end cut off.
---
 get_time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/get_time.cpp b/get_time.cpp
index 85f8be9..0d9b4ee 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -412,7 +412,7 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
    long year, int_rval;
    long double sec, dday;
    long double rval = -J2000, offset = 0., tval;
-   char buff[80];
+   char buff[160];            /* room for a space before every character */
    char symbol = 0;
    char *str = buff;
    const long double jan_1_1970 = 2440587.5;      /* starting point for UNIX time */
@@ -421,7 +421,7 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
       *is_ut = 0;
    while( *time_str == ' ')         /* skip leading spaces */
       time_str++;
-   if( strlen( time_str) >= sizeof( buff) || !*time_str)
+   if( strlen( time_str) >= sizeof( buff) / 2 || !*time_str)
       {
       if( is_ut)
          *is_ut = -3;
-- 
2.43.0


From 280a52f5a28bf2a328e6cab239b29366aa355532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:43 +0000
Subject: [PATCH 36/41] fix: get_time_from_string(): no endless loop for a text
 such as '2009-01-20 3d'

The '-20' was taken as an offset,  but not removed,  since it is not what
the 'd' belongs to;  it was therefore found again,  and again.
---
 get_time.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/get_time.cpp b/get_time.cpp
index 0d9b4ee..2483d43 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -152,6 +152,7 @@ static inline long double collect_time_offset( char *istr)
          if( len >= 0)         /* we found something... */
             if( sscanf( istr + len, "%Lf %c%n", &rval, &unused_char,
                                     &bytes_scanned) == 2)
+               {
                if( !istr[len + bytes_scanned])
                   {
                   for( i = 0; symbols[i]; i++)
@@ -161,6 +162,9 @@ static inline long double collect_time_offset( char *istr)
                      len--;
                   istr[len] = '\0';
                   }
+               else           /* not an offset after all */
+                  rval = 0.;
+               }
          }
       else if( *istr == '-' || *istr == '+')  /* just add/subtract N days: */
          {
-- 
2.43.0


From 548137c488c122ca054f179fbf9e51b3a6f44094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:15 +0000
Subject: [PATCH 37/41] fix: dmy_to_day(), days_in_month(): no reading beyond
 the months of the year

Month numbers come from text that may say anything.
---
 date.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/date.cpp b/date.cpp
index 6cc74df..d174865 100644
--- a/date.cpp
+++ b/date.cpp
@@ -710,9 +710,9 @@ long DLL_FUNC dmy_to_day( const int day, const int month, const long year,
    if( !rval)
       {
       if( day == RETURN_DAYS_IN_MONTH)
-         return( mdata[month - 1]);
+         return( month >= 1 && month <= N_MONTHS ? mdata[month - 1] : 0);
       jd = year_ends[0];
-      for( int i = 0; i < month - 1; i++)
+      for( int i = 0; i < month - 1 && i < N_MONTHS; i++)
          jd += mdata[i];
       jd += (long)day - 1;
       }
-- 
2.43.0


From f1cedfc968489f90fd038c6326b043161e6b6381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:53 +0000
Subject: [PATCH 38/41] fix: get_time_from_string(): AD and BC may be anywhere
 in the text

'44 BC 3 15' left two spaces between '44' and '3',  and was misread.
---
 get_time.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/get_time.cpp b/get_time.cpp
index 2483d43..af0e9fa 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -210,9 +210,12 @@ static char *remove_substring( char *timestr, const char *substring)
 
    if( rval)
       {
-      const size_t sublen = strlen( substring);
+      const char *tail = rval + strlen( substring);
 
-      memmove( rval, rval + sublen, strlen( rval + sublen) + 1);
+      if( rval == timestr || rval[-1] == ' ')   /* avoid leaving two spaces */
+         while( *tail == ' ')
+            tail++;
+      memmove( rval, tail, strlen( tail) + 1);
       }
    return( rval);
 }
-- 
2.43.0


From f42aaf97f8dba4ff0ab69c28d13996efc30ac0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:53 +0000
Subject: [PATCH 39/41] fix: get_time_from_string(): day of the week for dates
 before 2000

---
 get_time.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/get_time.cpp b/get_time.cpp
index af0e9fa..9767ffe 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -817,7 +817,11 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
                month = ival;
             else if( (ival = day_of_week_name_to_index( str)) >= 0)
                {
-               ival -= ((long)(initial_t2k + 6.5)) % 7;
+               long day_num = (long)floorl( initial_t2k + 6.5) % 7;
+
+               if( day_num < 0)
+                  day_num += 7;
+               ival -= (int)day_num;
                if( ival < -3)
                   ival += 7;
                else if( ival > 3)
-- 
2.43.0


From 8d76190c4f6b94a4b92186603bef17f4ba8ba981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:53 +0000
Subject: [PATCH 40/41] fix: get_time_from_string(): no abort for '3.5 sep 12'
 or '2009.5 3 4'

In the first,  month and day are clear,  so the third field is the year.
The second makes no sense,  and returns an error.
---
 get_time.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/get_time.cpp b/get_time.cpp
index 9767ffe..a6e13f6 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -773,6 +773,8 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
                   else   /* if month is 1st or last, year must be last/1st */
                      year_found = 4 - month_found;
                   }
+               else        /* month (by name) and day (decimal) found */
+                  year_found = 6 - month_found - day_found;
                }
             else        /* year_found... */
                if( !month_found && !day_found)  /* ...but nothing else */
@@ -790,9 +792,14 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
                day_found = 6 - year_found - month_found;
             else if( !month_found)
                month_found = 6 - year_found - day_found;
-            assert( year_found > 0 && year_found < 4);
-            assert( month_found > 0 && month_found < 4);
-            assert( day_found > 0 && day_found < 4);
+            if( year_found < 1 || year_found > 3
+                     || month_found < 1 || month_found > 3
+                     || day_found < 1 || day_found > 3)
+               {              /* nonsense such as '2009.5 3 4' */
+               if( is_ut)
+                  *is_ut = -1;
+               return( initial_t2k);
+               }
             year = (long)floorl( ivals[year_found - 1] + .5);
             dday = ivals[day_found - 1];
             month = (int)( ivals[month_found - 1] + .5);
-- 
2.43.0


From 4c72dd9e2c3f1c5e2234e619ddf14aff719850a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:58 +0000
Subject: [PATCH 41/41] fix: argument of perihelion of an orbit in the
 reference plane was never over 180 degrees

---
 classel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classel.cpp b/classel.cpp
index 8faad31..96f47ba 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -209,7 +209,7 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
          if( cos_arg_per < 0.)
             elem->arg_per = PI - elem->arg_per;
          }
-      if( e[2] < 0.)
+      if( n0 ? e[2] < 0. : e[1] * h[2] < 0.)
          elem->arg_per = PI + PI - elem->arg_per;
       }
 
-- 
2.43.0

