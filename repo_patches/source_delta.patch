From 5f885b3a18575c2bafa75ece02d4675397ba2703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:03 +0000
Subject: [PATCH 01/59] fix: Chemistry.copy() builds a copy of its own class

Copying a NeutralChemistry raised ChemistryConsistencyError (it has no electron).
---
 plaschem/chemistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 7af45a1..0177eff 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -96,7 +96,7 @@ class Chemistry(object):
         will still be sharing species and reactions objects.
         :return: (self instance)
         """
-        self_copy = Chemistry(species=self._species.values, reactions=self._reactions.values, xml_path=self.xml_path)
+        self_copy = type(self)(species=self._species.values, reactions=self._reactions.values, xml_path=self.xml_path)
 
         # ENFORCE IDENTICAL STATE:
         # masks:
-- 
2.43.0


From 094705aca70fb61af35c1e01239763e8dab63e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:03 +0000
Subject: [PATCH 02/59] fix: ad-hoc attributes of every documented type behave
 as numbers

str values were answered as str by the getters (or failed in the SI conversion), None values failed in the getters or
when dumped.
---
 plaschem/chemistry.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 0177eff..c598de2 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -370,8 +370,12 @@ class Chemistry(object):
             raise RPAttributeError('Adhoc changes to the {} attribute cannot be made'.format(attrib))
         if type(value) not in RP.allowed_attribute_types[attrib]:
             raise RPAttributeError('Unsupported value type for {} attribute: {}'.format(attrib, type(value)))
-        # need to convert np.float64 explicitly to float, otherwise the yaml dump will be a mess!
-        if type(value) == np.float64:
+        if value is None:  # not defined => no ad-hoc value
+            self.adhoc_species_attributes[attrib] = self.adhoc_species_attributes[attrib].drop(sp_id, errors='ignore')
+            return
+        # need to convert numbers (possibly np.float64 or str) explicitly to float, otherwise the yaml dump and the
+        # chemistry level getters will be a mess!
+        if attrib != 'ret_coefs':
             value = float(value)
         if attrib == 'ret_coefs':
             # verify the consistency of the chemistry with new return species
@@ -422,9 +426,12 @@ class Chemistry(object):
             raise ReactionAttributeError('Adhoc changes to the {} attribute cannot be made'.format(attrib))
         if type(value) not in Reaction.allowed_attribute_types[attrib]:
             raise ReactionAttributeError('Unsupported value type for {} attribute: {}'.format(attrib, type(value)))
-        # need to convert np.float64 explicitly to float, otherwise the yaml dump will be a mess!
-        if type(value) == np.float64:
-            value = float(value)
+        if value is None:  # not defined => no ad-hoc value
+            self.adhoc_reactions_attributes[attrib] = self.adhoc_reactions_attributes[attrib].drop(r_id, errors='ignore')
+            return
+        # need to convert numbers (possibly np.float64 or str) explicitly to float, otherwise the yaml dump and the
+        # chemistry level getters will be a mess!
+        value = float(value)
         self.adhoc_reactions_attributes[attrib].at[r_id] = value
 
     def reset_adhoc_reactions_attributes(self, attrib):
-- 
2.43.0


From 30fcb7f357e094dda408d76da54330eccda346cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:03 +0000
Subject: [PATCH 03/59] fix: get_species_ret_coefs returns only the selected
 species

Ad-hoc return coefficients of a species which is now disabled, and protected species with zero sticking coefficient,
were appended to the selection (and broke the shape of the return matrix).
---
 plaschem/chemistry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index c598de2..a1c0fca 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -729,10 +729,10 @@ class Chemistry(object):
         species = self.get_species(disabled=disabled, special=special, protected=protected)
         species_ret_coefs = pd.Series([copy.deepcopy(sp.get_ret_coefs()) for sp in species], index=species.index)
         # update with the adhoc ret_coefs:
-        for sp_id in self.adhoc_species_attributes['ret_coefs'].index:
+        for sp_id in species_ret_coefs.index.intersection(self.adhoc_species_attributes['ret_coefs'].index):
             species_ret_coefs.at[sp_id] = copy.deepcopy(self.adhoc_species_attributes['ret_coefs'].at[sp_id])
         # override for all species whose stick_coefs are 0.:
-        species_stick_coefs = self.get_species_stick_coef(disabled=disabled, special=special)
+        species_stick_coefs = self.get_species_stick_coef(disabled=disabled, special=special, protected=protected)
         for sp_id in species_stick_coefs.index:
             if species_stick_coefs.at[sp_id] == 0.:
                 species_ret_coefs.at[sp_id] = {}
-- 
2.43.0


From aecdad4e4e140933abf2adfe23bfcf8602d0db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:03 +0000
Subject: [PATCH 04/59] fix: return matrix with special species or with special
 return species

The special species mask covered disabled species too, and .at does not take masks; a special return species added a
row to the matrix without special species.
---
 plaschem/chemistry.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index a1c0fca..81873e6 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -868,12 +868,14 @@ class Chemistry(object):
                 for return_sp_name in ret_coefs:
                     return_sp_id = self.get_rp(return_sp_name).id
                     ret_coef = ret_coefs[return_sp_name]
-                    ret_mat.at[return_sp_id, sp_id] = ret_coef
+                    if return_sp_id in ret_mat.index:  # special species are not always included
+                        ret_mat.at[return_sp_id, sp_id] = ret_coef
         ret_mat = ret_mat.fillna(0.)
 
         if special:  # fill in the special species values back to NaN's...
-            ret_mat.at[self._special_sp, :] = np.nan
-            ret_mat.at[:, self._special_sp] = np.nan
+            special_sp = self._special_sp[ret_mat.index].values
+            ret_mat.loc[special_sp, :] = np.nan
+            ret_mat.loc[:, special_sp] = np.nan
 
         return ret_mat
 
-- 
2.43.0


From 21337321a72ce6a0d4d5c411e8ac1d8b33728e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:03 +0000
Subject: [PATCH 05/59] fix: coherence of chemistry attributes does not depend
 on the order of ad-hoc changes

---
 plaschem/chemistry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 81873e6..7d8876f 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -475,7 +475,7 @@ class Chemistry(object):
 
         adhoc_species_attributes = []
         for attr in self.adhoc_species_attributes:
-            for sp_i in self.adhoc_species_attributes[attr].index:
+            for sp_i in sorted(self.adhoc_species_attributes[attr].index):
                 attr_value = self.adhoc_species_attributes[attr].at[sp_i]
                 # need to explicitly convert the value into the correct datatype (numpy data-types play up in yaml)
                 attr_value = RP.allowed_attribute_types[attr][0](attr_value)  # using RP.allowed_types lists
@@ -483,7 +483,7 @@ class Chemistry(object):
 
         adhoc_reactions_attributes = []
         for attr in self.adhoc_reactions_attributes:
-            for r_i in self.adhoc_reactions_attributes[attr].index:
+            for r_i in sorted(self.adhoc_reactions_attributes[attr].index):
                 attr_value = self.adhoc_reactions_attributes[attr].at[r_i]
                 attr_value = Reaction.allowed_attribute_types[attr][0](attr_value)
                 adhoc_reactions_attributes.append([str(attr), int(r_i), attr_value])
-- 
2.43.0


From 1890284dfccd8a760295cdc9f6f1064ccf613df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:03 +0000
Subject: [PATCH 06/59] fix: load_chemistry_attributes restores every dumped
 state, rejects every unusable file

A state with ad-hoc return coefficients naming a disabled species could not be restored; files which are not a mapping
or belong to other species and reactions failed with foreign errors, some after changing the chemistry.
---
 plaschem/chemistry.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 7d8876f..1782980 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -559,8 +559,13 @@ class Chemistry(object):
 
                 xml_path = attributes['xml_path']
                 xml_hash = attributes['xml_hash']
-        except KeyError:
+        except (KeyError, TypeError, yaml.YAMLError):
             raise ChemistryAttributeError('Invalid yaml file!')
+        if (
+                set(enabled_sp_ids) | set(disabled_sp_ids) != set(self._species.index) or
+                set(enabled_r_ids) | set(disabled_r_ids) != set(self._reactions.index)
+        ):
+            raise ChemistryAttributeError('The species or reactions are not matching the chemistry!')
         if check_hash:
             if xml_path != self.xml_path:
                 raise ChemistryAttributeError('Chemistry xml input file path is not matching!')
@@ -568,6 +573,14 @@ class Chemistry(object):
                 raise ChemistryAttributeError('Chemistry xml input file content is not matching!')
 
         # all appears valid, so can start restoring the attributes:
+        # ad-hoc attributes (with everything enabled, as return species might have been disabled after they were set):
+        self.reset()
+        self.reset_adhoc_species_attributes('all')
+        for params_list in adhoc_species_attributes:
+            self.set_adhoc_species_attributes(*params_list)
+        self.reset_adhoc_reactions_attributes('all')
+        for params_list in adhoc_reactions_attributes:
+            self.set_adhoc_reactions_attributes(*params_list)
         # masks:
         self._enabled_sp[enabled_sp_ids] = True
         self._enabled_sp[disabled_sp_ids] = False
@@ -577,13 +590,6 @@ class Chemistry(object):
         self._adhoc_protected_sp[adhoc_protected_sp_ids] = True
         self._enabled_r[enabled_r_ids] = True
         self._enabled_r[disabled_r_ids] = False
-        # ad-hoc attributes:
-        self.reset_adhoc_species_attributes('all')
-        for params_list in adhoc_species_attributes:
-            self.set_adhoc_species_attributes(*params_list)
-        self.reset_adhoc_reactions_attributes('all')
-        for params_list in adhoc_reactions_attributes:
-            self.set_adhoc_reactions_attributes(*params_list)
 
         # assert consistency to be on a safe side:
         self.assert_consistency()
-- 
2.43.0


From 1fa8c10a9d66c7bf444811df1e30672c2347476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:21 +0000
Subject: [PATCH 07/59] fix: XmlParser reads species names with compound states
 (commas in parentheses)

---
 plaschem/xml_inputs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plaschem/xml_inputs.py b/plaschem/xml_inputs.py
index 2127c61..95ab179 100644
--- a/plaschem/xml_inputs.py
+++ b/plaschem/xml_inputs.py
@@ -737,8 +737,10 @@ class XmlParser(object):
 
             attributes = {element.tag: element.text for element in list(reaction_xml) if element.tag not in skip_tags}
             # deal with the skipped tags:
-            reactants_names = [sp_name.strip() for sp_name in reaction_xml.find('reactants').text.split(',')]
-            products_names = [sp_name.strip() for sp_name in reaction_xml.find('products').text.split(',')]
+            # (commas inside of parentheses belong to the names of species with compound states, e.g. 'N2(v=1,J=2)')
+            separator = r',(?![^()]*\))'
+            reactants_names = [sp_name.strip() for sp_name in re.split(separator, reaction_xml.find('reactants').text)]
+            products_names = [sp_name.strip() for sp_name in re.split(separator, reaction_xml.find('products').text)]
             reactants = [species_dict[sp_name] for sp_name in reactants_names]
             products = [species_dict[sp_name] for sp_name in products_names]
 
-- 
2.43.0


From 8d64da8fe32740ae7e91ea643a3a02c743765bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:21 +0000
Subject: [PATCH 08/59] fix: XmlBuilder.add_chemistry_from_instance works on a
 builder which already has species

---
 plaschem/xml_inputs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plaschem/xml_inputs.py b/plaschem/xml_inputs.py
index 95ab179..a398e1c 100644
--- a/plaschem/xml_inputs.py
+++ b/plaschem/xml_inputs.py
@@ -440,10 +440,13 @@ class XmlBuilder(object):
         """
         # store the original species order (ids)
         sp_ids = list(ch.get_species_id(special=True))
+        num_present = len(self.species)  # species already present before adding the chemistry stay as they are
         for r in ch.get_reactions():
             self.add_reaction_from_instance(r)
         # restore the species order as it was defined in the Chemistry instance:
-        self.species.sort(key=lambda x: sp_ids.index(int(x.attrib['id'])))
+        self.species[num_present:] = sorted(
+            self.species[num_present:], key=lambda x: sp_ids.index(int(x.attrib['id']))
+        )
 
     def add_chemistry_from_xml(self, xml_path):
         """Method to add all reaction and rp xml elements from a previously saved xml file. This will only add species
-- 
2.43.0


From 6110d080d3532d4ce30fd53f35c410c94ee73dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:51 +0000
Subject: [PATCH 09/59] fix: species with scandium and thallium can be sorted

---
 plaschem/classification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index 783140a..66cd585 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -75,10 +75,10 @@ class ReactionClassifier(object):
 
     elements_order = [
         'H', 'He', 'Li', 'Be', 'B', 'C', 'N', 'O', 'F', 'Ne', 'Na', 'Mg', 'Al', 'Si', 'P', 'S', 'Cl', 'Ar', 'K', 'Ca',
-        'SC', 'Ti', 'V', 'Cr', 'Mn', 'Fe', 'Co', 'Ni', 'Cu', 'Zn', 'Ga', 'Ge', 'As', 'Se', 'Br', 'Kr', 'Rb', 'Sr', 'Y',
+        'Sc', 'Ti', 'V', 'Cr', 'Mn', 'Fe', 'Co', 'Ni', 'Cu', 'Zn', 'Ga', 'Ge', 'As', 'Se', 'Br', 'Kr', 'Rb', 'Sr', 'Y',
         'Zr', 'Nb', 'Mo', 'Tc', 'Ru', 'Rh', 'Pd', 'Ag', 'Cd', 'In', 'Sn', 'Sb', 'Te', 'I', 'Xe', 'Cs', 'Ba', 'La', 'Ce',
         'Pr', 'Nd', 'Pm', 'Sm', 'Eu', 'Gd', 'Tb', 'Dy', 'Ho', 'Er', 'Tm', 'Yb', 'Lu', 'Hf', 'Ta', 'W', 'Re', 'Os', 'Ir',
-        'Pt', 'Au', 'Hg', 'Ti', 'Pb', 'Bi', 'Po', 'At', 'Rn', 'Fr', 'Ra', 'Ac', 'Th', 'Pa', 'U', 'Np', 'Pu', 'Am', 'Cm',
+        'Pt', 'Au', 'Hg', 'Tl', 'Pb', 'Bi', 'Po', 'At', 'Rn', 'Fr', 'Ra', 'Ac', 'Th', 'Pa', 'U', 'Np', 'Pu', 'Am', 'Cm',
         'Bk', 'Cf', 'M'
     ]
 
-- 
2.43.0


From 835c6e6204b0193799a023e6aaa15098e2635b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:14 +0000
Subject: [PATCH 10/59] fix: classification of collisions of ions of the same
 sign and of multiply charged ions does not crash

---
 plaschem/classification.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index 66cd585..930693d 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -298,8 +298,11 @@ class ReactionClassifier(object):
             r_category = 'unclassified electron impact collisions'
             col_partners = [sp for sp in reactants if sp.get_name() != 'e']
             heavy_products = [sp for sp in products if sp.get_name() != 'e']
-            col_partner = col_partners[0]  # used only for the case of only one collision partner
-            if len(reactants) < 2:  # this is a screw case, will go to unclassified
+            # used only for the case of only one collision partner
+            col_partner = col_partners[0] if len(col_partners) else None
+            if col_partner is None:  # only electrons colliding, will go to unclassified
+                pass
+            elif len(reactants) < 2:  # this is a screw case, will go to unclassified
                 pass
             elif len(reactants) > 3:  # this will lend in unclassified as well
                 pass
@@ -413,12 +416,12 @@ class ReactionClassifier(object):
                     ):
                         r_category = 'interchange'
 
-            elif ((charges_r > 0) + (charges_r == 0)).all():
+            elif (charges_r >= 0).all() and (charges_r == 0).any():
                 r_type = 'POSITIVE ION - NEUTRAL COLLISIONS'
                 r_category = 'unclassified positive ion - neutral collisions'
                 r_ion = reactants[np.where(charges_r > 0)[0][0]]
                 r_neutral = reactants[np.where(charges_r == 0)[0][0]]
-                if len(products) == len(reactants):
+                if len(products) == len(reactants) and (charges_p > 0).any() and (charges_p == 0).any():
                     p_ion = products[np.where(charges_p > 0)[0][0]]
                     p_neutral = products[np.where(charges_p == 0)[0][0]]
                     if r_ion.get_name().strip('+') == p_neutral.get_name() and \
@@ -431,7 +434,7 @@ class ReactionClassifier(object):
                     if r_neutral.get_name() + '+' in [sp.get_name() for sp in products]:
                         r_category = 'dissociative charge transfer'
 
-            elif ((charges_r < 0) + (charges_r == 0)).all():
+            elif (charges_r <= 0).all() and (charges_r == 0).any():
                 r_type = 'NEGATIVE ION - NEUTRAL COLLISIONS'
                 r_category = 'unclassified negative ion - neutral collisions'
                 r_ion = reactants[np.where(charges_r < 0)[0][0]]
@@ -441,7 +444,7 @@ class ReactionClassifier(object):
                         r_category = 'detachment'
                     elif len(reactants) > len(products) - el_stoich_coef:
                         r_category = 'associative detachment'
-                elif len(products) == len(reactants):
+                elif len(products) == len(reactants) and (charges_p < 0).any() and (charges_p == 0).any():
                     p_ion = products[np.where(charges_p < 0)[0][0]]
                     p_neutral = products[np.where(charges_p == 0)[0][0]]
                     if r_ion.get_name().strip('-') == p_neutral.get_name() and \
@@ -451,7 +454,7 @@ class ReactionClassifier(object):
                         else:
                             r_category = 'charge transfer'
 
-            elif ((charges_r < 0) + (charges_r > 0)).all():
+            elif (charges_r < 0).any() and (charges_r > 0).any():
                 if (charges_p == 0).all():
                     r_type = 'ION - ION COLLISIONS'
                     r_category = 'unclassified ion - ion collisions'
-- 
2.43.0


From 8d41cbd79afddaa2be754eb25e5d61fd5bcd4614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:11 +0000
Subject: [PATCH 11/59] fix: aligned reaction strings follow the sorting of
 species

---
 plaschem/classification.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index 930693d..95843ce 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -217,6 +217,8 @@ class ReactionClassifier(object):
         # reset dependencies:
         self._classified_reactions = OrderedDict()
         self._memo_species_index = dict()
+        self._memo_reactions_sorted_species_names = dict()
+        self._alignments = dict()
 
     def _species_index(self, sp):
         """This is just getting index of a species inside the self.species list. Only here to optimise the lookup
-- 
2.43.0


From 3434b8775fd40532a203f64f43d856984fffbe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 12/59] fix: power profiles with whole-number times are not
 truncated

---
 pygmo_fwork/pygmol/equations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/pygmol/equations.py b/pygmo_fwork/pygmol/equations.py
index 039aa75..d96a89a 100644
--- a/pygmo_fwork/pygmol/equations.py
+++ b/pygmo_fwork/pygmol/equations.py
@@ -187,8 +187,8 @@ class Equations(object):
         self.p0 = model_params['pressure']
         self.t_end = model_params['t_end']
 
-        self.pow = np.array(model_params['power'])
-        self.t_pow = np.array(model_params['t_power'])
+        self.pow = np.array(model_params['power'], dtype=float)
+        self.t_pow = np.array(model_params['t_power'], dtype=float)  # floats, as repeated values get nudged below
 
         # adjust repeated values in P_t, since P_t needs to be strictly ascending - need to make it continuous func
         d_t = 0.00001 * self.t_end
-- 
2.43.0


From e21573c9f177ba3c2975191916aad38c0beda249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 13/59] fix: wall flux of a non-sticking negative ion is zero,
 not NaN

---
 pygmo_fwork/pygmol/equations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/equations.py b/pygmo_fwork/pygmol/equations.py
index d96a89a..85f6e25 100644
--- a/pygmo_fwork/pygmol/equations.py
+++ b/pygmo_fwork/pygmol/equations.py
@@ -694,7 +694,9 @@ class Equations(object):
         if self.diffusion_model == 0:
             return -diff_c * n * s / self.diff_l ** 2 * self.volume / self.area
         elif self.diffusion_model == 1:
-            return -diff_c * n * s / (s * self.diff_l + (4 * diff_c / v_m))
+            denominator = s * self.diff_l + (4 * diff_c / v_m)
+            # species which neither diffuse nor stick (such as non-sticking negative ions) have a null flux
+            return -diff_c * n * s / np.where(denominator == 0, 1., denominator)
         else:
             raise ValueError('Unsupported diffusion model!')
 
-- 
2.43.0


From ea2c784af08b0f73b0291bfa54f29a0455b691b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:06 +0000
Subject: [PATCH 14/59] fix: Model.diagnose labels the columns by the quantity,
 not by their number only

---
 pygmo_fwork/pygmol/model.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pygmo_fwork/pygmol/model.py b/pygmo_fwork/pygmol/model.py
index 35d76ef..224a524 100644
--- a/pygmo_fwork/pygmol/model.py
+++ b/pygmo_fwork/pygmol/model.py
@@ -40,6 +40,9 @@ class Model(object):
         'num_reactions'
     )
 
+    # quantities of the Equations class (see self.diagnose) with a value for each reaction
+    reactions_quantities = ('reaction_rate_coefficients', 'reaction_rates', 'el_en_losses')
+
     def __init__(self, chemistry, model_params):
         """Initialiser of the GlobalModel class. The model solves equations for density balance for Ns species
         and electron temperature balance. A Chemistry class instance needs to be passed as chemistry, defining
@@ -243,15 +246,19 @@ class Model(object):
         """
         if sol_primary is None:
             sol_primary = self.sol_primary
-        diagnostics = pd.DataFrame([getattr(self.equations, 'get_{}'.format(quantity))(y).copy() for y in sol_primary])
-        if diagnostics.shape[1] == self.equations.num_species:  # a value for each species
-            diagnostics.columns = list(self.chemistry.get_species_name())
-        elif diagnostics.shape[1] == self.equations.num_reactions:  # a value for each reaction
+        values = [np.array(getattr(self.equations, 'get_{}'.format(quantity))(y)) for y in sol_primary]  # copies
+        diagnostics = pd.DataFrame(values)
+        # the columns are recognised by the quantity first, since there might be as many reactions as species
+        if values[0].ndim == 0:  # one value for the whole system
+            diagnostics.columns = ['value']
+        elif quantity in self.reactions_quantities:  # a value for each reaction
             diagnostics.columns = list(self.chemistry.get_reactions_id())
+        elif diagnostics.shape[1] == self.equations.num_species:  # a value for each species
+            diagnostics.columns = list(self.chemistry.get_species_name())
         elif diagnostics.shape[1] == self.equations.num_species + 1:  # a value for each component of the y vector
             diagnostics.columns = list(self.chemistry.get_species_name()) + ['rho']
-        else:  # one value for the whole system
-            diagnostics.columns = ['value']
+        else:
+            diagnostics.columns = list(self.chemistry.get_reactions_id())
         # add the totals column:
         if totals:
             diagnostics['total'] = diagnostics.sum(axis=1)
-- 
2.43.0


From 9dcb9a7fcbb23b72fff2b54fac003230da61d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:41 +0000
Subject: [PATCH 15/59] fix: NeutralChemistry refuses the electron as
 documented

---
 pygmo_fwork/pygmol/neutral_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/neutral_model.py b/pygmo_fwork/pygmol/neutral_model.py
index 3a64024..4ad4496 100644
--- a/pygmo_fwork/pygmol/neutral_model.py
+++ b/pygmo_fwork/pygmol/neutral_model.py
@@ -19,7 +19,7 @@ class NeutralChemistry(Chemistry):
         """Redefinition of the base-class method. Supers the base and adds the assertion of all species being neutral"""
         # check that all species are neutral:
         species_charge = self.get_species_charge()
-        if not (species_charge.values == 0).all():
+        if not (species_charge.values == 0).all() or 'e' in list(self.get_species_name(special=True).values):
             raise ChemistryConsistencyError('NeutralChemistry cannot contain charged species!')
         super().assert_consistency()
 
-- 
2.43.0


From 747986d7759346933619183e7c956791c48f0785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:30 +0000
Subject: [PATCH 16/59] fix: get_results_frames returns frames of numbers,
 which can be processed further

---
 pygmo_fwork/results.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index f5154c3..03d52ab 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -238,14 +238,13 @@ class ResultsParser(object):
             assert results_df['t'].iloc[0] <= t <= results_df['t'].iloc[-1], \
                 'time={} is outside the results_df range'.format(t)
 
-        frames = pd.DataFrame(columns=results_df.columns)
-        frames.loc[:, 't'] = times
-        ignore_columns = {'t'}
-        for col in results_df.columns:
-            if col not in ignore_columns:
-                vals_at_times = np.interp(times, results_df['t'], results_df[col])
-                frames.loc[:, col] = vals_at_times
-        return frames
+        times = np.array(times, dtype=float)
+        orig_times = np.array(results_df['t'], dtype=float)
+        frames = {
+            col: times if col == 't' else np.interp(times, orig_times, np.array(results_df[col], dtype=float))
+            for col in results_df.columns
+        }
+        return pd.DataFrame(frames, columns=results_df.columns)
 
     def fetch_model_params(self, run_id, backend=None, results_dir=None, attributes_dump_name=None):
         """This method will return the model parameters dict from the logged .yaml file. Returns from
-- 
2.43.0


From 5d95d0f9cd3f5b755908ddd24ed1ee08f5882ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:30 +0000
Subject: [PATCH 17/59] fix: printing of production and consumption processes
 with pandas 2

---
 pygmo_fwork/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index 03d52ab..be064a5 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -429,7 +429,7 @@ class ResultsParser(object):
         surface_rates = \
             ResultsParser.get_surface_rates(sp=sp, chemistry=chemistry, model_params=model_params,
                                             wall_fluxes_frame=wall_fluxes_frame, annotate=True)
-        all_rates = volumetric_rates.append(surface_rates, verify_integrity=True)
+        all_rates = pd.concat([volumetric_rates, surface_rates], verify_integrity=True)
         production_rates = all_rates[all_rates > 0]
         # capping
         if n is None:
@@ -462,7 +462,7 @@ class ResultsParser(object):
         surface_rates = \
             ResultsParser.get_surface_rates(sp=sp, chemistry=chemistry, model_params=model_params,
                                             wall_fluxes_frame=wall_fluxes_frame, annotate=True)
-        all_rates = volumetric_rates.append(surface_rates, verify_integrity=True)
+        all_rates = pd.concat([volumetric_rates, surface_rates], verify_integrity=True)
         consumption_rates = all_rates[all_rates < 0]
         # capping
         if n is None:
-- 
2.43.0


From 37ae67b162aed9b2334ad639d94857d95b81ab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:30 +0000
Subject: [PATCH 18/59] fix: compress_solution keeps the changes of negative
 values (wall fluxes)

---
 pygmo_fwork/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index be064a5..0b7532d 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -505,7 +505,7 @@ class ResultsParser(object):
                 if next_index >= len(full_sol.index) - 1:
                     break
                 diff = abs(full_sol.loc[next_index] - full_sol.loc[front_index])
-                rel_diff = diff/full_sol.loc[front_index]
+                rel_diff = diff/abs(full_sol.loc[front_index])
                 if diff['t'] < min_step_abs:
                     drop_index.add(next_index)
                     next_index += 1
-- 
2.43.0


From 692343233f7288b70b36ea9b32a2edf298a02230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:30 +0000
Subject: [PATCH 19/59] fix: surface rates are sorted as documented and named
 by species however they are identified

---
 pygmo_fwork/results.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index 0b7532d..067371a 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -394,7 +394,7 @@ class ResultsParser(object):
 
         # select just non-zero elements from one row belonging to the species sp:
         surface_rates = surface_rates_matrix.loc[sp_id]
-        surface_rates = surface_rates[surface_rates != 0]
+        surface_rates = surface_rates[surface_rates != 0].sort_values(ascending=False)
 
         # annotate:
         if annotate:
@@ -402,9 +402,9 @@ class ResultsParser(object):
             sp_names = chemistry.get_species_name()
             for i in surface_rates.index:
                 if i == sp_id:
-                    r_string = '{} + wall > wall'.format(sp)
+                    r_string = '{} + wall > wall'.format(sp_names[sp_id])
                 else:
-                    r_string = '{} + wall > {} + wall'.format(sp_names[i], sp)
+                    r_string = '{} + wall > {} + wall'.format(sp_names[i], sp_names[sp_id])
                 new_index.append('{: <10}{}'.format('S{}'.format(i), r_string))
             surface_rates.index = new_index
 
-- 
2.43.0


From 0cceacc2695b5da5689bb12a0fad1c83c217e924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:30 +0000
Subject: [PATCH 20/59] fix: ModelParameters do not share the power arrays with
 the caller

---
 pygmo_fwork/pygmol/model_parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/pygmol/model_parameters.py b/pygmo_fwork/pygmol/model_parameters.py
index 7b5a0fa..5a4a753 100644
--- a/pygmo_fwork/pygmol/model_parameters.py
+++ b/pygmo_fwork/pygmol/model_parameters.py
@@ -102,7 +102,7 @@ class _ModelParametersPower(TypeCheck):
             self.assert_is_number(power, number_type='non-negative')
         if self._time_array is not None and len(self._time_array) != len(power_array):
             raise ModelParametersConsistencyError('"power" and "t_power" parameters are inconsistent sizes!')
-        self._power_array = power_array
+        self._power_array = list(power_array)  # a copy, which cannot be changed from outside
 
     def get_power(self):
         """Returns the power values.
@@ -125,7 +125,7 @@ class _ModelParametersPower(TypeCheck):
             self.assert_is_number(time, number_type='any')
         if self._power_array is not None and len(self._power_array) != len(time_array):
             raise ModelParametersConsistencyError('"power" and "t_power" parameters are inconsistent sizes!')
-        self._time_array = time_array
+        self._time_array = list(time_array)  # a copy, which cannot be changed from outside
 
     def get_time(self):
         """Returns the time values corresponding to the power values.
-- 
2.43.0


From 3cf8dd7d43d9c674e75ab3f4fdab52bca6d5a6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:52 +0000
Subject: [PATCH 21/59] fix: items and values of ModelParameters answer the
 same as getting by key

---
 pygmo_fwork/pygmol/model_parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/pygmol/model_parameters.py b/pygmo_fwork/pygmol/model_parameters.py
index 5a4a753..4b23322 100644
--- a/pygmo_fwork/pygmol/model_parameters.py
+++ b/pygmo_fwork/pygmol/model_parameters.py
@@ -302,7 +302,7 @@ class ModelParameters(_ModelParametersBase):
         return self.parameters.keys()
 
     def values(self):
-        return self.parameters.values()
+        return dict(self).values()  # the same values as under self[key], see __getitem__
 
     def items(self):
-        return self.parameters.items()
+        return dict(self).items()  # the same values as under self[key], see __getitem__
-- 
2.43.0


From bb8ad8067a488ace8384e53a3bc59ffbda5d378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 22/59] fix: refused model parameters leave the global model as
 it was when reloaded

---
 pygmo_fwork/global_model.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pygmo_fwork/global_model.py b/pygmo_fwork/global_model.py
index 168c762..322795b 100644
--- a/pygmo_fwork/global_model.py
+++ b/pygmo_fwork/global_model.py
@@ -51,16 +51,17 @@ class GlobalModel(object):
         :param model_parameters: (plaschem.model_parameters.ModelParameters or dict or similar) check the backend docs
         :param backend: (str) identifier of the backend model.
         """
-        self.backend = backend
-        self.model = None
-        if self.backend.lower() not in Config.accepted_backends:
+        if backend.lower() not in Config.accepted_backends:
             raise GlobalModelAttributeError('Unsupported backend identifier: {}'.format(backend))
-        if self.backend.lower() == 'pygmol':
-            self.model = PyGMol(chemistry=chemistry, model_params=model_parameters)
-        elif self.backend.lower() == 'pygkin':
+        if backend.lower() == 'pygmol':
+            model = PyGMol(chemistry=chemistry, model_params=model_parameters)
+        elif backend.lower() == 'pygkin':
             raise NotImplementedError  # TODO: Implement PyGKin!
         else:
             raise GlobalModelAttributeError('This can never happen! Fix the Config.accepted_backends class attribute!')
+        # only set after the arguments were accepted, refused parameters leave a reloaded instance as it was
+        self.backend = backend
+        self.model = model
         # sanity check: does the backend model implement all the mandatory methods?
         for method in self.mandatory_backend_methods:
             if not hasattr(self.model, method) or not inspect.ismethod(getattr(self.model, method)):
-- 
2.43.0


From 83c1e41a1791fd86b30351d2944b06b79730cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 23/59] fix: numpy numbers in parameters and initial densities
 do not break the logs

---
 pygmo_fwork/global_model.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/global_model.py b/pygmo_fwork/global_model.py
index 322795b..4b706af 100644
--- a/pygmo_fwork/global_model.py
+++ b/pygmo_fwork/global_model.py
@@ -1,5 +1,6 @@
 
 import inspect
+import numbers
 import os
 import shutil
 import yaml
@@ -268,7 +269,8 @@ class GlobalModel(object):
         self.model.chemistry.dump_chemistry_attributes(
             os.path.join(run_results_dir, Config.default_log_name('chemistry_attributes', run_id=run_id))
         )
-        model_params = dict(self.model.model_params)
+        model_params = self._plain(dict(self.model.model_params))
+        init_params = self._plain(init_params)
         with open(os.path.join(
                 run_results_dir, Config.default_log_name('model_attributes', run_id=run_id)), 'w') as stream:
             yaml.dump(
@@ -279,6 +281,25 @@ class GlobalModel(object):
         # save the solver log (for PyGMol) or copy all the inputs and outputs (for GlobalKin)
         self.model.dump_logs(run_results_dir=run_results_dir)
 
+    @classmethod
+    def _plain(cls, value):
+        """Helper method turning all the numbers in (nested) parameters explicitly to python ints and floats, since numbers
+        of other types (e.g. numpy) could not be loaded back from the yaml logs.
+        :param value: a parameter value or a dict or iterable of them
+        :return: the same structure built from python dicts, lists and numbers
+        """
+        if isinstance(value, dict):
+            return {key: cls._plain(val) for key, val in value.items()}
+        elif isinstance(value, (list, tuple)):
+            return [cls._plain(val) for val in value]
+        elif isinstance(value, (bool, np.bool_)):
+            return bool(value)
+        elif isinstance(value, numbers.Integral):
+            return int(value)
+        elif isinstance(value, numbers.Real):
+            return float(value)
+        return value
+
     @staticmethod
     def check_convergency(solution, model_params, eps=0.1, timewindow=0.1, verbose=False):
         """Method to check the computed backend model results and check if the results converged in time. Also
-- 
2.43.0


From 689933a4a3195b058911921278eee10a4752520c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:00 +0000
Subject: [PATCH 24/59] fix: results of a run keep their labels when the
 chemistry is modified afterwards

---
 pygmo_fwork/pygmol/model.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pygmo_fwork/pygmol/model.py b/pygmo_fwork/pygmol/model.py
index 224a524..365d50c 100644
--- a/pygmo_fwork/pygmol/model.py
+++ b/pygmo_fwork/pygmol/model.py
@@ -75,6 +75,7 @@ class Model(object):
 
         self.equations = None  # placeholder for the Equations instance
         self._build_equations()  # populate the self.equations attribute
+        self._save_labels()
 
         self.sol_raw = None  # placeholder for whatever the selected solver returns
         self.t = None  # placeholder for an array of timesteps
@@ -89,6 +90,13 @@ class Model(object):
         """
         self.equations = Equations(self.chemistry, self.model_params)
 
+    def _save_labels(self):
+        """This method saves the species names and reactions ids which the self.equations instance was built for.
+        :return: None
+        """
+        self.species_names = list(self.chemistry.get_species_name())
+        self.reactions_ids = list(self.chemistry.get_reactions_id())
+
     def _build_y0(self, el_temp=1.0, ionisation_degree=1.e-15, neg_ion_fraction=1.e-15, non_feed_sp_fraction=1.e-15):
         """A method to create a self-consistent initial values of the solution. This is pretty much only useful if
         running the PyGMol as a stand-alone. If running via the GlobalModel wrapper, the initial guess will be
@@ -185,6 +193,7 @@ class Model(object):
         """
         # WARNING: new Equations instance NEEDS to be created before each run, to reflect possible changes in chemistry
         self._build_equations()
+        self._save_labels()
 
         if y0 is None:
             y0 = self._build_y0()
@@ -248,17 +257,19 @@ class Model(object):
             sol_primary = self.sol_primary
         values = [np.array(getattr(self.equations, 'get_{}'.format(quantity))(y)) for y in sol_primary]  # copies
         diagnostics = pd.DataFrame(values)
+        # labels as of when the equations were built: the chemistry might have been modified since
+        species_names, reactions_ids = self.species_names, self.reactions_ids
         # the columns are recognised by the quantity first, since there might be as many reactions as species
         if values[0].ndim == 0:  # one value for the whole system
             diagnostics.columns = ['value']
         elif quantity in self.reactions_quantities:  # a value for each reaction
-            diagnostics.columns = list(self.chemistry.get_reactions_id())
+            diagnostics.columns = reactions_ids
         elif diagnostics.shape[1] == self.equations.num_species:  # a value for each species
-            diagnostics.columns = list(self.chemistry.get_species_name())
+            diagnostics.columns = species_names
         elif diagnostics.shape[1] == self.equations.num_species + 1:  # a value for each component of the y vector
-            diagnostics.columns = list(self.chemistry.get_species_name()) + ['rho']
+            diagnostics.columns = species_names + ['rho']
         else:
-            diagnostics.columns = list(self.chemistry.get_reactions_id())
+            diagnostics.columns = reactions_ids
         # add the totals column:
         if totals:
             diagnostics['total'] = diagnostics.sum(axis=1)
-- 
2.43.0


From cf0c4889acb7a575552fcaebff7ef56e617d7998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 25/59] fix: a config file which is not valid yaml raises the
 documented ConfigError

---
 pygmo_fwork/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/config.py b/pygmo_fwork/config.py
index 88ca43c..7283d16 100644
--- a/pygmo_fwork/config.py
+++ b/pygmo_fwork/config.py
@@ -31,7 +31,7 @@ class Config(dict):
         with open(config_file_path, 'r') as stream:
             try:  # try yaml loading the config into a dict
                 config_dict = dict(yaml.load(stream, yaml.FullLoader))
-            except (TypeError, ValueError) as _:
+            except (TypeError, ValueError, yaml.YAMLError) as _:
                 raise ConfigError('Failed to parse the config file! Needs to follow the prescribed format & structure!')
 
         # instantiate with the parsed dictionary
-- 
2.43.0


From e0ec6a7d3b2b01539e89a9b750bb93205beceb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:57 +0000
Subject: [PATCH 26/59] fix: compress_solution works for frames of any index,
 such as loaded compressed logs

---
 pygmo_fwork/results.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index 067371a..9c88e3a 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -491,7 +491,7 @@ class ResultsParser(object):
         :return: (pd.DataFrame) solution dataframe with the same columns as the full_sol, but compressed (not
                  containing all the original timesteps)
         """
-        drop_index = set([])  # all the indices to be dropped from the full solution!
+        drop_index = set([])  # all the index labels to be dropped from the full solution!
         min_step_abs = full_sol['t'].iloc[-1]*min_timestep  # minimal allowed step between two subsequent timeframes
 
         front_index = 0
@@ -504,19 +504,19 @@ class ResultsParser(object):
             while True:
                 if next_index >= len(full_sol.index) - 1:
                     break
-                diff = abs(full_sol.loc[next_index] - full_sol.loc[front_index])
-                rel_diff = diff/abs(full_sol.loc[front_index])
+                diff = abs(full_sol.iloc[next_index] - full_sol.iloc[front_index])
+                rel_diff = diff/abs(full_sol.iloc[front_index])
                 if diff['t'] < min_step_abs:
-                    drop_index.add(next_index)
+                    drop_index.add(full_sol.index[next_index])
                     next_index += 1
                 elif (rel_diff < diff_threshold).drop('t').all():
-                    drop_index.add(next_index)
+                    drop_index.add(full_sol.index[next_index])
                     next_index += 1
                 else:
                     break
             front_index = next_index
 
-        compressed_sol = full_sol.drop(drop_index, axis=0)
+        compressed_sol = full_sol.drop(list(drop_index), axis=0)
 
         return compressed_sol
 
-- 
2.43.0


From c2c98555cf0a421ca681b0e680d44c21728dad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:31 +0000
Subject: [PATCH 27/59] fix: DRGEP weights of species in balance are normalised
 by the production they share with the consumption

---
 pygmo_fwork/optichem/graph.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 15bf7aa..f29ac97 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -468,9 +468,7 @@ class ChemistryGraph(object):
             assert (tot_prod >= 0).all()
             assert (tot_cons >= 0).all()
             # build the normalisation array (N_times x N_species):
-            norm = np.zeros(tot_prod.shape)
-            norm[tot_prod > tot_cons] = tot_prod[tot_prod > tot_cons]
-            norm[tot_cons > tot_prod] = tot_cons[tot_cons > tot_prod]
+            norm = np.maximum(tot_prod, tot_cons)
             # rows are important times and columns are species
         else:
             raise NotImplementedError('Unrecognised weighting method: {}'.format(weighting_method))
-- 
2.43.0


From 38e1e56f6d8665ca51194627d24f1e12f6a7e85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:21 +0000
Subject: [PATCH 28/59] fix: DRG and DRGEP weights do not exceed 1 by rounding,
 which the max_product search does not accept

---
 pygmo_fwork/optichem/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index f29ac97..c52bb2b 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -475,6 +475,8 @@ class ChemistryGraph(object):
         norm[norm == 0] = np.nan  # so I can divide by it...
         # normalise:
         r /= norm[:, np.newaxis, :]
+        if weighting_method in {'DRG', 'DRGEP'}:
+            r = np.minimum(r, 1.)  # these are shares of the whole, which only exceed 1 by rounding
 
         # distribute the weights for all the graph for each one important time:
         for t_i, t in enumerate(self.important_times):
-- 
2.43.0


From c05bf7d53e3ef063ce5af5253354699dd3bcc0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:38 +0000
Subject: [PATCH 29/59] fix: get_max_flow works with a pandas which does not
 take sets for an index

---
 pygmo_fwork/optichem/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index c52bb2b..01805b7 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -240,7 +240,8 @@ class Graph(object):
         weighting_func, inverse = self._default_weighting_functions(weighting_func, inverse)
 
         # first build the matrix of capacities and plugging zero where edges do not exist:
-        capacity = pd.DataFrame(index=self.get_nodes(), columns=self.get_nodes())
+        nodes = sorted(self.get_nodes())
+        capacity = pd.DataFrame(index=nodes, columns=nodes)
         for u in self.get_nodes():
             for v in self.get_nodes():
                 if self.has_edge(u, v):
-- 
2.43.0


From 96771327ff9290ee294348f71613c7702577cbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:38 +0000
Subject: [PATCH 30/59] fix: species not coupled to any other are nodes of the
 chemistry graph, with the lowest ranking scores

---
 pygmo_fwork/optichem/graph.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 01805b7..8060db4 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -49,6 +49,17 @@ class Graph(object):
         """
         return self.node_attributes[node]
 
+    def add_node(self, node: str) -> None:
+        """Method adding a node to the graph, if it is not present already.
+        :param node: (str) node
+        :return: None
+        """
+        if node not in self.nodes:
+            self.nodes.add(node)
+            self.node_attributes[node] = {}
+            self.successors[node] = set([])
+            self.predecessors[node] = set([])
+
     def add_edge(self, u: str, v: str) -> None:
         """Method adding an edge to the graph. If the nodes u or v are not present, these are automatically added.
         :param u: (str) tail node of the (u, v) edge
@@ -56,11 +67,7 @@ class Graph(object):
         :return: None
         """
         for node in (u, v):
-            if node not in self.nodes:
-                self.nodes.add(node)
-                self.node_attributes[node] = {}
-                self.successors[node] = set([])
-                self.predecessors[node] = set([])
+            self.add_node(node)
         if (u, v) not in self.edges:
             self.successors[u].add(v)
             self.predecessors[v].add(u)
@@ -482,6 +489,8 @@ class ChemistryGraph(object):
         # distribute the weights for all the graph for each one important time:
         for t_i, t in enumerate(self.important_times):
             graph = self.graphs[t_i]
+            for sp in self.species:  # including the species which are not coupled to any other
+                graph.add_node(sp)
             for a_i, a in enumerate(self.species):
                 for b_i, b in enumerate(self.species):
                     if a != b:
-- 
2.43.0


From 45de9f0c1e6f345c4252b16d7469cbd1f6ce0357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:14 +0000
Subject: [PATCH 31/59] fix: ranking scores of times which are close together
 do not overwrite each other

---
 pygmo_fwork/optichem/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 8060db4..9b7d8fc 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -531,7 +531,7 @@ class ChemistryGraph(object):
         for important_sp in important_species:
             for t_i, important_time in enumerate(self.important_times):
                 graph = self.graphs[t_i]
-                index = '{} ({:.3e})'.format(important_sp, important_time)
+                index = '{} ({:.3e}, {})'.format(important_sp, important_time, t_i)  # times might be close together
                 if search_method == 'max_bottleneck':
                     paths, scores = graph.find_max_bottleneck_paths(target_node=important_sp, edge_attribute='weight')
                 elif search_method == 'shortest_path':
-- 
2.43.0


From 224b42caa98df16bfc08ada20f76c5be9079d06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:29 +0000
Subject: [PATCH 32/59] fix: Morris statistics are those of finished
 trajectories, also if others are running or were interrupted

---
 pygmo_fwork/optichem/morris.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index f67c08b..d04b82c 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -874,10 +874,9 @@ class MorrisMethod(object):
             morris_results_dir = Config().get_morris_results_dir()  # Parent results directory
             logs_dir = os.path.join(morris_results_dir, str(morris_run_id), MorrisMethod.logs_dir_name)
 
-        # full paths to all the trajectory directories (the ones containing run logs for all the trajectory runs)
-        traj_dirs_paths = list(
-            glob.glob(os.path.join(logs_dir, '*'))
-        )
+        # full paths to all the trajectory directories (the ones containing run logs for all the trajectory runs),
+        # without those of unfinished trajectories, for which the meta data have not been dumped
+        traj_dirs_paths = [os.path.dirname(path) for path in glob.glob(os.path.join(logs_dir, '*', 'meta.yaml'))]
         traj_dirs_paths.sort()
 
         trajectories_stats = []  # the TrajectoryStats object for each of the found trajectories
-- 
2.43.0


From 43e21aa3e698c79d83cc2d9894b312b03a5a37f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:25 +0000
Subject: [PATCH 33/59] fix: Morris runs with numpy numbers among the model
 parameters can be continued

---
 pygmo_fwork/optichem/morris.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index d04b82c..c3406c8 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -399,7 +399,7 @@ class MorrisMethod(object):
                     'Chemistry is not coherent with previous morris trajectories for this Morris Run ID')
             with open(os.path.join(meta_dir, 'model_parameters.yaml')) as stream:
                 meta_model_params = dict(ModelParameters(yaml.load(stream, Loader=yaml.FullLoader)))
-                if not meta_model_params == dict(ModelParameters(self.model_params)):
+                if not meta_model_params == self._plain_model_params():
                     raise MorrisCoherenceError(
                         'Model parameters are not coherent with previous morris trajectories for this Morris Run ID')
             with open(os.path.join(meta_dir, 'meta.yaml')) as stream:
@@ -411,6 +411,14 @@ class MorrisMethod(object):
                     raise MorrisCoherenceError(
                         'Model backend is not coherent with previous morris trajectories for this Morris Run ID')
 
+    def _plain_model_params(self):
+        """Helper method giving the model parameters with all the numbers as python ints and floats, since numbers of other
+        types (e.g. numpy) could not be loaded back from the yaml.
+        :return: (dict)
+        """
+        # noinspection PyProtectedMember
+        return GlobalModel._plain(dict(ModelParameters(self.model_params)))
+
     def _dump_meta(self, meta_dir, traj_type):
         """Method to dump meta data to a passed meta_dir (for one particular Morris Run). The traj_type has several
         options:
@@ -424,7 +432,7 @@ class MorrisMethod(object):
         """
         self.chemistry.dump_chemistry_attributes(os.path.join(meta_dir, 'chemistry_attributes.yaml'))
 
-        model_params = dict(ModelParameters(self.model_params))  # this cleans up the dict, so ready for yaml dump
+        model_params = self._plain_model_params()  # this cleans up the dict, so ready for yaml dump
         with open(os.path.join(meta_dir, 'model_parameters.yaml'), 'w') as stream:
             yaml.dump(model_params, stream)
 
-- 
2.43.0


From 552485a82636d3587b4ae43c71baba24b0777abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:26 +0000
Subject: [PATCH 34/59] fix: Morris runs are coherent with their own backend,
 however its name is capitalised

---
 pygmo_fwork/optichem/morris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index c3406c8..535ee12 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -407,7 +407,7 @@ class MorrisMethod(object):
                 if not meta_meta['trajectory_type'] == traj_type:
                     raise MorrisCoherenceError(
                         'Trajectory type is not coherent with previous morris trajectories for this Morris Run ID')
-                if not meta_meta['model_backend'] == self.model_backend:
+                if not meta_meta['model_backend'] == self.model_backend.lower():
                     raise MorrisCoherenceError(
                         'Model backend is not coherent with previous morris trajectories for this Morris Run ID')
 
-- 
2.43.0


From a7304887aa8303fe30db8914441534b4a71320fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:46 +0000
Subject: [PATCH 35/59] fix: a Morris trajectory which was interrupted can be
 run again under its (unfinished) id

---
 pygmo_fwork/optichem/morris.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index 535ee12..5ad2e6e 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -2,6 +2,7 @@
 import glob
 import multiprocessing
 import os
+import shutil
 import time
 from collections import namedtuple
 from numbers import Number
@@ -449,6 +450,8 @@ class MorrisMethod(object):
         :return: None
         """
         run_dir = os.path.join(logs_traj_dir, run_id)
+        if os.path.isdir(run_dir):  # left there by a trajectory which was interrupted
+            shutil.rmtree(run_dir)
         os.mkdir(run_dir)
         if compress:
             solution = ResultsParser.compress_solution(solution, diff_threshold=0.05, min_timestep=0.001)
@@ -634,7 +637,7 @@ class MorrisMethod(object):
         run_id = '{:0{}d}_initial_run'.format(0, len(str(factors_dimension)))
         model.run(
             verbose=verbosity >= 3, log_results=full_log, log_to=self.logs_traj_dir,
-            run_id=run_id
+            run_id=run_id, overwrite=True  # there only might be runs of the same trajectory interrupted before
         )
         if not full_log:
             self._log_solution(model.get_solution(), run_id, self.logs_traj_dir, compress=compress_solution)
@@ -696,7 +699,7 @@ class MorrisMethod(object):
             run_id = '{:0{}d}_elem_effect_of_{}'.format(j+1, len(str(factors_dimension)), factor_id)
             model.run(
                 verbose=verbosity >= 3, log_results=full_log, log_to=self.logs_traj_dir,
-                run_id=run_id
+                run_id=run_id, overwrite=True
             )
             if not full_log:
                 self._log_solution(model.get_solution(), run_id, self.logs_traj_dir, compress=compress_solution)
-- 
2.43.0


From 86035a6265dd5d93db181be0f125ee6a90b99181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:09 +0000
Subject: [PATCH 36/59] fix: trajectories run in parallel are not lost to meta
 files of the Morris run being just dumped by another one

---
 pygmo_fwork/optichem/morris.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index 5ad2e6e..2c7c153 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -394,7 +394,8 @@ class MorrisMethod(object):
                           'model_parameters' each for one supported (coded) Morris Run types
         :return: None
         """
-        if len(os.listdir(meta_dir)):
+        # meta.yaml gets dumped as the last one (see self._dump_meta)
+        if os.path.isfile(os.path.join(meta_dir, 'meta.yaml')):
             if not self.chemistry.check_coherence(os.path.join(meta_dir, 'chemistry_attributes.yaml')):
                 raise MorrisCoherenceError(
                     'Chemistry is not coherent with previous morris trajectories for this Morris Run ID')
@@ -431,14 +432,21 @@ class MorrisMethod(object):
         :param traj_type: (str) 'reactions', 'species', 'return_coefficients' or 'model_parameters'
         :return: None
         """
-        self.chemistry.dump_chemistry_attributes(os.path.join(meta_dir, 'chemistry_attributes.yaml'))
+        # trajectories running in parallel might be just reading (or dumping) the same files, so each of them needs to appear
+        # complete: dumped under a name of its own and only then renamed.
+        tmp_path = os.path.join(meta_dir, '.{}.tmp'.format(os.getpid()))
+
+        self.chemistry.dump_chemistry_attributes(tmp_path)
+        os.replace(tmp_path, os.path.join(meta_dir, 'chemistry_attributes.yaml'))
 
         model_params = self._plain_model_params()  # this cleans up the dict, so ready for yaml dump
-        with open(os.path.join(meta_dir, 'model_parameters.yaml'), 'w') as stream:
+        with open(tmp_path, 'w') as stream:
             yaml.dump(model_params, stream)
+        os.replace(tmp_path, os.path.join(meta_dir, 'model_parameters.yaml'))
 
-        with open(os.path.join(meta_dir, 'meta.yaml'), 'w') as stream:
+        with open(tmp_path, 'w') as stream:
             yaml.dump({'trajectory_type': traj_type, 'model_backend': self.model_backend.lower()}, stream)
+        os.replace(tmp_path, os.path.join(meta_dir, 'meta.yaml'))
 
     @staticmethod
     def _log_solution(solution, run_id, logs_traj_dir, compress):
-- 
2.43.0


From 9934eeeeb40f835fb001b5eca4efabb955325704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:16 +0000
Subject: [PATCH 37/59] fix: reductions keep the feed gas and the important
 species, instead of failing when they are removed

---
 pygmo_fwork/optichem/reduction.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index 09066b5..ec5cf05 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -65,8 +65,9 @@ class ReductionIterator(object):
         # keeping a ledger of species/reactions removing history
         self.all_eligible_species = \
             set(self.model.model.chemistry.get_species_name(special=False, disabled=False, protected=False))
-        # exclude the important species from eligible:
+        # exclude the important species and the feed gas species from eligible:
         self.all_eligible_species = set(sp for sp in self.all_eligible_species if str(sp) not in self.important_outputs)
+        self.all_eligible_species -= set(self.model.model.model_params['feeds'])
         if not len(self.all_eligible_species):
             raise ReductionInitError('The chemistry of the passed model does not have any species that can be removed!')
         self.all_species = set(self.model.model.chemistry.get_species_name())
@@ -218,6 +219,11 @@ class ReductionIterator(object):
             removed_successfully = True
         except ChemistryDisableError:  # species could not even be disabled... will be skipped.
             removed_successfully = False
+        # some of the species removed implicitly might not be eligible for removal (important outputs, feeds):
+        if not species_left_before_remove - set(self.model.model.chemistry.get_species_name()) <= \
+                self.left_eligible_species:
+            removed_successfully = False
+            self.model.model.chemistry.load_chemistry_attributes(restore_chem_attrib_path)  # restore the chemistry
         if removed_successfully:
             try:
                 try:
-- 
2.43.0


From afd245d8115c68cd5da14848c03fc9b6f306b4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:09 +0000
Subject: [PATCH 38/59] fix: reductions work with the maximal error given as a
 numpy number

---
 pygmo_fwork/optichem/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index ec5cf05..1670939 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -51,7 +51,7 @@ class ReductionIterator(object):
         self.max_error = max_error
         self.meta = {
             'important_outputs': self.important_outputs, 'important_times': self.important_times,
-            'max_error': self.max_error
+            'max_error': float(self.max_error)  # numpy floats could not be loaded back from yaml
         }
         if reduction_results_dir is None:
             reduction_results_dir = Config().get_reduction_results_dir()  # Parent results directory
-- 
2.43.0


From f65f708164163cc3c97a468ee1bccff2aa38e882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:54 +0000
Subject: [PATCH 39/59] fix: the numbers in LaTeX rate coefficients and
 reaction tables keep their trailing zeros

---
 plaschem/latex.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/plaschem/latex.py b/plaschem/latex.py
index c9a2961..72ab09f 100644
--- a/plaschem/latex.py
+++ b/plaschem/latex.py
@@ -96,6 +96,15 @@ class Texify:
 
         raise AssertionError('TeXify error!')
 
+    @staticmethod
+    def _texify_number(number):
+        """Returns the string of a number rounded to two decimals, without the redundant '.0' of the whole numbers.
+        :param number: (float)
+        :return (str)
+        """
+        number = str(round(float(number), 2) + 0.)  # adding the zero turns -0.0 into 0.0
+        return number[:-2] if number.endswith('.0') else number
+
     @staticmethod
     def texify_rate_coefficient(reaction, si_units=True, fractype='/'):
         """Returns the LaTeX equation of the Arrhenius formula with the Reaction kinetic data.
@@ -106,7 +115,7 @@ class Texify:
         # pre-exponential factor:
         a_exp = '{:.2E}'.format(reaction.get_arrh_a(si_units=si_units))
         a, exp = a_exp.split('E')
-        a = a.rstrip('.0')
+        a = a.rstrip('0').rstrip('.')
         if int(exp) != 0:
             tex_a = r'{} \times 10^{{{}}}'.format(a, int(exp))
         else:
@@ -116,7 +125,7 @@ class Texify:
         if reaction.get_arrh_b() == 0:
             tex_b = ''
         else:
-            exp = str(round(reaction.get_arrh_b(), 2)).rstrip('.0')
+            exp = Texify._texify_number(reaction.get_arrh_b())
             if reaction.is_electron_process():
                 tex_b = r' T_\mathrm{{e}}^{{{}}}'.format(exp)
             else:
@@ -129,7 +138,7 @@ class Texify:
         if reaction.get_arrh_c() == 0:
             tex_c = ''
         else:
-            act_en = str(round(abs(reaction.get_arrh_c()), 2)).rstrip('.0')
+            act_en = Texify._texify_number(abs(reaction.get_arrh_c()))
             sign = '-' if reaction.get_arrh_c() > 0 else ''
             if reaction.is_electron_process():
                 if fractype == 'dfrac':
@@ -358,7 +367,7 @@ class ReactionsTable(TexTable):
                 )
             elif col == r'$\Delta E_\mathrm{e}$':
                 df[col] = pd.Series(
-                    [str(round(r.get_el_en_loss(), 2)).rstrip('.0') if r.get_el_en_loss() != 0 else ''
+                    [Texify._texify_number(r.get_el_en_loss()) if r.get_el_en_loss() != 0 else ''
                      for r in self.reactions],
                     index=self.reactions.index
                 )
-- 
2.43.0


From 2ed4aec8f43520983cecb163600e7d6f1798c921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:54 +0000
Subject: [PATCH 40/59] fix: the LaTeX tables can be built with pandas 2

---
 plaschem/latex.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plaschem/latex.py b/plaschem/latex.py
index 72ab09f..f41eea3 100644
--- a/plaschem/latex.py
+++ b/plaschem/latex.py
@@ -172,7 +172,10 @@ class TexTable(object):
 
     def load_dataframe(self, dataframe):
         self.dataframe = dataframe
-        self.decorators = pd.DataFrame(lambda x: x, index=self.dataframe.index, columns=self.dataframe.columns)
+        self.decorators = pd.DataFrame(
+            [[lambda x: x] * len(self.dataframe.columns) for _ in self.dataframe.index],
+            index=self.dataframe.index, columns=self.dataframe.columns, dtype='object'
+        )
 
     def add_label(self, label):
         self.label = label
-- 
2.43.0


From 68132e000e28ff9b68c5895bb6814b7e115e7df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:22 +0000
Subject: [PATCH 41/59] fix: species sharing a LaTeX representation are not
 merged in the LaTeX representations of reactions

---
 plaschem/reactions.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/plaschem/reactions.py b/plaschem/reactions.py
index 953d321..864d96a 100644
--- a/plaschem/reactions.py
+++ b/plaschem/reactions.py
@@ -618,19 +618,20 @@ class Reaction(object):
         if latex is not None:
             latex = str(latex)
         else:
-            species_dicts = [OrderedDict(), OrderedDict()]
-            for sp_dict, id_stoich in zip(species_dicts, (self.get_stoich_coefs('lhs'), self.get_stoich_coefs('rhs'))):
+            species_lists = [[], []]
+            for sp_list, id_stoich in zip(species_lists, (self.get_stoich_coefs('lhs'), self.get_stoich_coefs('rhs'))):
                 for sp_id in id_stoich:
                     sp_latex = self.get_rp(sp_id).get_latex()
                     if id_stoich[sp_id] == 1:
-                        sp_dict[sp_latex] = ''
+                        sp_list.append((sp_latex, ''))
                     elif id_stoich[sp_id] > 1:
-                        sp_dict[sp_latex] = '{} '.format(id_stoich[sp_id])
-            # now species_dicts is list with two dicts for reactants and products, where each dict is keyed by
-            # latex repr of species and value is string of the stoich coefficient (or empty string if it's 1)
+                        sp_list.append((sp_latex, '{} '.format(id_stoich[sp_id])))
+            # now species_lists is list with two lists for reactants and products, where each list holds pairs of the
+            # latex repr of species and the string of the stoich coefficient (or empty string if it's 1). Different
+            # species might share their latex repr, therefore it cannot be a key of a dict.
             sides = [
-                ' + '.join(['{}{}'.format(stoich, sp_latex) for sp_latex, stoich in species_dict.items()])
-                for species_dict in species_dicts
+                ' + '.join(['{}{}'.format(stoich, sp_latex) for sp_latex, stoich in species_list])
+                for species_list in species_lists
             ]
             latex = r'{} \rightarrow {}'.format(*sides)
 
-- 
2.43.0


From 2458de405fe919c41e6b503ab44e1e13d47947b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 42/59] fix: chemistry arrays can be pretty-printed with pandas
 2

---
 plaschem/pretty_print.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plaschem/pretty_print.py b/plaschem/pretty_print.py
index 303e3d1..c53fb3b 100644
--- a/plaschem/pretty_print.py
+++ b/plaschem/pretty_print.py
@@ -53,7 +53,7 @@ class PrettyPrint(object):
         """
 
         # create a top level copy of the array where I'll wrap the objects in color and insert the annotations:
-        to_print = array.copy()
+        to_print = array.astype('object')
 
         # colorfy the objects (values)
         for i in to_print.index:
@@ -78,8 +78,8 @@ class PrettyPrint(object):
             columns_labels = pd.Series([ColorValue(str(a)) for a in columns_labels_objects],
                                        index=columns_labels_objects.index)
             to_print.insert(0, -1, index_labels[to_print.index])
-            columns_labels = pd.Series([ColorValue(''), ], index=[-1]).append(columns_labels)
-            to_print = pd.DataFrame(columns_labels[to_print.columns]).T.append(to_print)
+            columns_labels = pd.concat([pd.Series([ColorValue(''), ], index=[-1]), columns_labels])
+            to_print = pd.concat([pd.DataFrame(columns_labels[to_print.columns]).T, to_print])
 
         # colorcode the disabled values:
         for i in getattr(self.chemistry, 'get_disabled_{}'.format(structure['index']))().index:
-- 
2.43.0


From 2b3b5590fe070852cd8534a8f100a6aa5311ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 43/59] fix: arrays pretty-printed without annotation keep the
 id of their first row and column

---
 plaschem/pretty_print.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/plaschem/pretty_print.py b/plaschem/pretty_print.py
index c53fb3b..0948c4f 100644
--- a/plaschem/pretty_print.py
+++ b/plaschem/pretty_print.py
@@ -93,9 +93,10 @@ class PrettyPrint(object):
                 for i in to_print.index:
                     to_print.at[i, c].set_color('RED')
 
-        # remove the index and columns values for the label row and column:
-        to_print.index = ['', ] + list(to_print.index)[1:]
-        to_print.columns = ['', ] + list(to_print.columns)[1:]
+        if annotation:
+            # remove the index and columns values for the label row and column:
+            to_print.index = ['', ] + list(to_print.index)[1:]
+            to_print.columns = ['', ] + list(to_print.columns)[1:]
 
         # colorify columns. Index cannot be colorfied, since it will mess up the alignment.
         to_print.columns = [ColorValue(c) for c in to_print.columns]
-- 
2.43.0


From ce41e415a26760c692c8fedc5999a647332f3b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:26 +0000
Subject: [PATCH 44/59] fix: pretty-printed arrays of reactions are not
 annotated with species of the same ids

---
 plaschem/pretty_print.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/plaschem/pretty_print.py b/plaschem/pretty_print.py
index 0948c4f..bbf63ef 100644
--- a/plaschem/pretty_print.py
+++ b/plaschem/pretty_print.py
@@ -62,7 +62,20 @@ class PrettyPrint(object):
 
         # determine if index or columns belong to species or reactions
         structure = {}
+        ch = self.chemistry
+        all_ids = {
+            'species': [list(ch.get_species(disabled=dis, special=spec).index)
+                        for dis in (False, True) for spec in (False, True)],
+            'reactions': [list(ch.get_reactions(disabled=dis).index) for dis in (False, True)]
+        }
         for keys in ['index', 'columns']:
+            # ids of reactions might also be among the ids of species, so look first for the exact ids of an array
+            for candidates in ['species', 'reactions']:
+                if list(getattr(to_print, keys)) in all_ids[candidates]:
+                    structure[keys] = candidates
+                    break
+            if keys in structure:
+                continue
             for candidates in ['species', 'reactions']:
                 if set(getattr(to_print, keys)).issubset(set(getattr(self.chemistry, '_{}'.format(candidates)).index)):
                     structure[keys] = candidates
-- 
2.43.0


From 494b1f5a9834fabffc23281bbbab08329ebefb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:48 +0000
Subject: [PATCH 45/59] fix: elastic flags given as strings are not printed as
 if they were defaults

---
 plaschem/chemistry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 1782980..25334ed 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -1185,9 +1185,9 @@ class Chemistry(object):
                             if not equal:
                                 # if saved attribute is 'True' or 'False', need to catch it:
                                 if saved_attrib in {'True', 'true', 'TRUE'}:
-                                    equal = returned_attrib is True
+                                    equal = bool(returned_attrib)  # might be a numpy bool
                                 elif saved_attrib in {'False', 'false', 'FALSE'}:
-                                    equal = returned_attrib is False
+                                    equal = not bool(returned_attrib)
                                 else:  # if not boolean, it should be number...
                                     try:  # float attributes might be saved as int or str...
                                         equal = float(saved_attrib) == float(returned_attrib)
-- 
2.43.0


From f28ee1c15f568b52952980662d96a76f95569719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:14 +0000
Subject: [PATCH 46/59] fix: chemistry arrays of species or reactions with the
 id of 0 can be pretty-printed with annotation

---
 plaschem/pretty_print.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plaschem/pretty_print.py b/plaschem/pretty_print.py
index bbf63ef..ae802dc 100644
--- a/plaschem/pretty_print.py
+++ b/plaschem/pretty_print.py
@@ -92,7 +92,9 @@ class PrettyPrint(object):
                                        index=columns_labels_objects.index)
             to_print.insert(0, -1, index_labels[to_print.index])
             columns_labels = pd.concat([pd.Series([ColorValue(''), ], index=[-1]), columns_labels])
-            to_print = pd.concat([pd.DataFrame(columns_labels[to_print.columns]).T, to_print])
+            # the row of labels must not share its index with any of the ids (which might be 0)
+            labels_row = pd.DataFrame([list(columns_labels[to_print.columns])], index=[-1], columns=to_print.columns)
+            to_print = pd.concat([labels_row, to_print])
 
         # colorcode the disabled values:
         for i in getattr(self.chemistry, 'get_disabled_{}'.format(structure['index']))().index:
-- 
2.43.0


From 2d7afe5724a986a9865b3403ab79ed4b8f96290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:14 +0000
Subject: [PATCH 47/59] fix: pretty-printed arrays do not cut long reaction
 strings together with their color-codes

---
 plaschem/pretty_print.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plaschem/pretty_print.py b/plaschem/pretty_print.py
index ae802dc..7c4a342 100644
--- a/plaschem/pretty_print.py
+++ b/plaschem/pretty_print.py
@@ -129,7 +129,10 @@ class PrettyPrint(object):
         if type(array) == pd.DataFrame:
             pretty_df = self._get_pretty_dataframe(array=array, annotation=annotation)
             print()
-            with pd.option_context('display.max_rows', None, 'display.max_columns', None, 'display.width', None):
+            with pd.option_context(
+                    'display.max_rows', None, 'display.max_columns', None, 'display.width', None,
+                    'display.max_colwidth', 999,  # long reaction strings would lose the end of their color-code
+            ):
                 print(pretty_df)
             print()
             return pretty_df
-- 
2.43.0


From bae6c0edeaba2c4321612e6829ae14fa2ade0fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:49 +0000
Subject: [PATCH 48/59] fix: printed species attributes do not cut long values
 together with their color-codes

---
 plaschem/chemistry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 25334ed..afea072 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -1066,7 +1066,10 @@ class Chemistry(object):
 
         if printout:
             print()
-            with pd.option_context('display.max_rows', None, 'display.max_columns', None, 'display.width', None):
+            with pd.option_context(
+                    'display.max_rows', None, 'display.max_columns', None, 'display.width', None,
+                    'display.max_colwidth', 999,
+            ):
                 print(species_attributes)
             print()
 
-- 
2.43.0


From fb449c61578ab37ead36ff0ce9bc4e3507af5b41 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:51:10 +0000
Subject: [PATCH 49/59] fix: plots of all densities of a solution include the
 electron density

---
 pygmo_fwork/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index 9c88e3a..75e3930 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -538,7 +538,7 @@ class ResultsParser(object):
         """
         sol = self.fetch_solution(run_id, backend=backend, results_dir=results_dir, file_name=file_name)
         if not len(to_plot):
-            to_plot = list(sol.columns)[1:-4]  # get rid of time and non-density parameters
+            to_plot = list(sol.columns)[1:-3]  # get rid of time and non-density parameters
         for param in to_plot:
             plt.plot(sol['t'], sol[param], label='{}'.format(param))
         plt.xlabel('Time (s)')
-- 
2.43.0


From 1d5a0730d9556ab76deb05b4445b899b2b4a9c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:59 +0000
Subject: [PATCH 50/59] fix: chemistry xml files are written as utf-8, whatever
 the locale

---
 plaschem/xml_inputs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plaschem/xml_inputs.py b/plaschem/xml_inputs.py
index a398e1c..8a3c41e 100644
--- a/plaschem/xml_inputs.py
+++ b/plaschem/xml_inputs.py
@@ -675,7 +675,7 @@ class XmlBuilder(object):
 
         # dump to a file, but first format it with minidom:
         xmlstr = minidom.parseString(ElementTree.tostring(root_xml, encoding='utf-8')).toprettyxml(indent=4 * ' ')
-        with open(path, 'w') as f:
+        with open(path, 'w', encoding='utf-8') as f:  # xml files are read as utf-8, whatever the locale
             f.write(xmlstr)
 
 
-- 
2.43.0


From 29bcff43634e08b92816701e8d3856fae4e958fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:54 +0000
Subject: [PATCH 51/59] fix: hash of the chemistry xml file whatever its
 encoding

---
 plaschem/chemistry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index afea072..49142a9 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -606,8 +606,9 @@ class Chemistry(object):
         if not os.path.isfile(xml_path):
             raise ChemistryAttributeError('Invalid xml_path attribute!')
 
-        with open(xml_path) as f:
-            xml_hash = hashlib.md5(f.read().encode()).hexdigest()
+        with open(xml_path, 'rb') as f:  # bytes, as the encoding is stated inside of the xml file
+            content = f.read().replace(b'\r\n', b'\n').replace(b'\r', b'\n')  # line endings do not matter
+        xml_hash = hashlib.md5(content).hexdigest()
         return xml_hash
 
     def check_coherence(self, yaml_path):
-- 
2.43.0


From 122bf65ab50b9ce982247c44c3a4cbfa7233151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:36 +0000
Subject: [PATCH 52/59] fix: diagnosing a solution passed with another number
 of frames than the last run

---
 pygmo_fwork/pygmol/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/pygmol/model.py b/pygmo_fwork/pygmol/model.py
index 365d50c..4959dba 100644
--- a/pygmo_fwork/pygmol/model.py
+++ b/pygmo_fwork/pygmol/model.py
@@ -273,8 +273,9 @@ class Model(object):
         # add the totals column:
         if totals:
             diagnostics['total'] = diagnostics.sum(axis=1)
-        # add the time column:
-        diagnostics['t'] = pd.Series(self.t, index=diagnostics.index)
+        # add the time column (times are only known for the timesteps of this instance's own solution)
+        t = self.t if self.t is not None and len(self.t) == len(diagnostics) else np.nan
+        diagnostics['t'] = pd.Series(t, index=diagnostics.index)
         diagnostics = diagnostics[['t'] + list(diagnostics.columns[:-1])]
         return pd.DataFrame(diagnostics)
 
-- 
2.43.0


From c07daa3a8da6674157e95d022eab53ce671df16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:55 +0000
Subject: [PATCH 53/59] fix: ModelParameters instances are accepted wherever
 dicts of model parameters are

---
 pygmo_fwork/optichem/morris.py         | 2 +-
 pygmo_fwork/pygmol/model_parameters.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index 2c7c153..ef3de7b 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -522,7 +522,7 @@ class MorrisMethod(object):
         """
         # make the copies of everything for this particular run... This way multiple trajectories can run parallel
         chemistry = self.chemistry.copy()
-        model_params = self.model_params.copy()
+        model_params = dict(self.model_params)
         model = GlobalModel(chemistry, model_params, backend=self.model_backend)
 
         # make sure that all the relevant attributes are passed:
diff --git a/pygmo_fwork/pygmol/model_parameters.py b/pygmo_fwork/pygmol/model_parameters.py
index 4b23322..9ab5725 100644
--- a/pygmo_fwork/pygmol/model_parameters.py
+++ b/pygmo_fwork/pygmol/model_parameters.py
@@ -214,13 +214,13 @@ class ModelParameters(_ModelParametersBase):
         - t_end (time_end, end_time) => number in [s]
         If the keys differ from prescribed, if the types are mismatched, or if the power and t_power arrays are
         inconsistent, appropriate errors are raised.
-        :param model_params: (dict) of model parameters
+        :param model_params: (dict or ModelParameters) of model parameters
         :param additional_model_params: additional model parameters
         """
         if model_params is None:
             all_passed_params = {}
         else:
-            all_passed_params = model_params.copy()
+            all_passed_params = dict(model_params)
         all_passed_params.update(additional_model_params)
 
         self.parameters = {}  # this is the "master" dict holding all the values under their nominal keys
-- 
2.43.0


From d2dec6164f5d0c6a34a9ca62215db5897b846907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:55 +0000
Subject: [PATCH 54/59] fix: ranking of Morris factors for important outputs
 and times in any iterables

---
 pygmo_fwork/optichem/morris.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index ef3de7b..5377878 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -964,6 +964,7 @@ class MorrisMethod(object):
                              (factor) in key towards the specified global model outputs of interest.
                            The Series is sorted starting with least significant parameters.
         """
+        important_outputs, important_times = list(important_outputs), list(important_times)  # any iterables might be passed
         morris_stats = \
             MorrisMethod.get_morris_stats(morris_run_id=morris_run_id, logs_dir=logs_dir, times=important_times)
         if not set(important_outputs).issubset(set(morris_stats.mean_outputs[0].index)):
-- 
2.43.0


From 8d72b64f925d44bfaf2f3f145f2e2f264f24114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:03 +0000
Subject: [PATCH 55/59] fix: errors of reduced solutions at times passed as an
 iterator

---
 pygmo_fwork/optichem/errors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygmo_fwork/optichem/errors.py b/pygmo_fwork/optichem/errors.py
index 5d8b031..3f63f6f 100644
--- a/pygmo_fwork/optichem/errors.py
+++ b/pygmo_fwork/optichem/errors.py
@@ -60,6 +60,7 @@ class SolutionsDiff(object):
         :return: (array) of (flaot) a mixed relative error between the full and reduced models for a single model
                  output and for each time from passed times array.
         """
+        times = list(times)  # might be an iterator
         # full model solution values of the model_output at times:
         vals_full = np.array([self._get_result_in_time(self.sol_full, model_output, time) for time in times])
         # reduced model solution values of the model_output at times:
@@ -93,6 +94,7 @@ class SolutionsDiff(object):
         :param times: (iterable) of float times. All need to be in time range of both solutions
         :return: (flaot) maximal mixed relative error across all times and important outputs.
         """
+        times = list(times)  # might be an iterator
         return max([self.get_output_error_max(sol_red, model_output, times) for model_output in important_outputs])
 
     def get_error_rms(self, sol_red, important_outputs, times):
@@ -102,6 +104,7 @@ class SolutionsDiff(object):
         :param times: (iterable) of float times. All need to be in time range of both solutions
         :return: (flaot) RMS of mixed relative errors across all times and important outputs.
         """
+        times = list(times)  # might be an iterator
         return self._array_rms(
             np.array([self.get_output_error_rms(sol_red, model_output, times) for model_output in important_outputs])
         )
-- 
2.43.0


From 4b3b6c03aa53154699a7101a6fc4005c6dac53a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:51 +0000
Subject: [PATCH 56/59] fix: chemistry from species and reactions in any
 iterables

---
 plaschem/chemistry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 49142a9..800122a 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -47,6 +47,7 @@ class Chemistry(object):
         # build reactions and species arrays if not passed:
         if reactions is None:
             species, reactions = XmlParser().get_species_and_reactions(xml_path=xml_path)
+        species, reactions = list(species), list(reactions)  # any iterables might be passed
 
         # base consistency check: IDs need to be unique:
         sp_ids = [sp.id for sp in species]
-- 
2.43.0


From 55d9e608e843d104b5af2e151d4b75a26c5b4df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:24 +0000
Subject: [PATCH 57/59] fix: wall fluxes and diffusivities of the neutral model

---
 pygmo_fwork/pygmol/neutral_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygmo_fwork/pygmol/neutral_model.py b/pygmo_fwork/pygmol/neutral_model.py
index 4ad4496..825b3ee 100644
--- a/pygmo_fwork/pygmol/neutral_model.py
+++ b/pygmo_fwork/pygmol/neutral_model.py
@@ -67,6 +67,8 @@ class NeutralEquations(Equations):
         return self.sigma_sc
 
     def get_diffusivities(self, y, diff_c_free=None, diff_a_pos=None, diff_a_neg=None):
+        if diff_c_free is None:
+            diff_c_free = self.get_free_diffusivities(y)
         return diff_c_free
 
     # redefine the objective function factory, so it does not calculate unnecessary clutter
-- 
2.43.0


From 345754cfad20b4056eec596d8dde55d27b7cad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:26 +0000
Subject: [PATCH 58/59] fix: solution of a previous run after a run which
 failed

A run which failed after the chemistry had been changed left the solution of the previous run with
the equations and labels of the new one, so rates and wall fluxes belonged to neither.
---
 pygmo_fwork/pygmol/model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pygmo_fwork/pygmol/model.py b/pygmo_fwork/pygmol/model.py
index 4959dba..c2c1774 100644
--- a/pygmo_fwork/pygmol/model.py
+++ b/pygmo_fwork/pygmol/model.py
@@ -191,14 +191,16 @@ class Model(object):
         :param jacobian: (bool) if the jacobian function is to be used in the solve_ivp.
         :return: None
         """
-        # WARNING: new Equations instance NEEDS to be created before each run, to reflect possible changes in chemistry
-        self._build_equations()
-        self._save_labels()
-
         if y0 is None:
             y0 = self._build_y0()
         self._validate_y0(y0)
 
+        # WARNING: new Equations instance NEEDS to be created before each run, to reflect possible changes in chemistry
+        self._build_equations()
+        self._save_labels()
+        # the solution of a previous run does not belong to the new equations
+        self.sol_raw = self.t = self.sol_primary = self.sol_secondary = None
+
         t_end = self.model_params['t_end']
 
         func, jac = self.equations.get_objective_functions(jacobian=jacobian)
@@ -304,7 +306,7 @@ class Model(object):
         """Method to get a success of the solution. True, if solver finished successfully, False if not.
         :return: (bool)
         """
-        return bool(self.sol_raw.success)
+        return self.sol_raw is not None and bool(self.sol_raw.success)
 
     def get_solution(self):
         """Returns a pd.DataFrame holding the time-dependent solution of the model. The DataFrame has columns
-- 
2.43.0


From d092f8b390deb88007a54b44d232a5cda373c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:26 +0000
Subject: [PATCH 59/59] fix: chemistry attributes of another chemistry

A file with the same ids, but attributes which do not belong to the chemistry (such as return species
it does not have), raised various errors after a part of the attributes had been restored. It is
rejected with ChemistryAttributeError now, and the chemistry is left as it was.
---
 plaschem/chemistry.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 800122a..2b1d1c7 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -560,7 +560,11 @@ class Chemistry(object):
 
                 xml_path = attributes['xml_path']
                 xml_hash = attributes['xml_hash']
-        except (KeyError, TypeError, yaml.YAMLError):
+
+                # raises TypeError, if these are not all lists of ids:
+                set().union(enabled_sp_ids, disabled_sp_ids, protected_sp_ids, adhoc_protected_sp_ids)
+                set().union(enabled_r_ids, disabled_r_ids)
+        except (KeyError, TypeError, UnicodeDecodeError, yaml.YAMLError):
             raise ChemistryAttributeError('Invalid yaml file!')
         if (
                 set(enabled_sp_ids) | set(disabled_sp_ids) != set(self._species.index) or
@@ -573,6 +577,33 @@ class Chemistry(object):
             if xml_hash != self.xml_hash(self.xml_path):
                 raise ChemistryAttributeError('Chemistry xml input file content is not matching!')
 
+        bu_masks = [mask.copy() for mask in (
+            self._enabled_sp, self._protected_sp, self._adhoc_protected_sp, self._enabled_r
+        )]
+        bu_adhoc_species_attributes = self.adhoc_species_attributes.copy()
+        bu_adhoc_reactions_attributes = self.adhoc_reactions_attributes.copy()
+        try:
+            self._restore_chemistry_attributes(
+                enabled_sp_ids, disabled_sp_ids, protected_sp_ids, adhoc_protected_sp_ids, enabled_r_ids,
+                disabled_r_ids, adhoc_species_attributes, adhoc_reactions_attributes
+            )
+        except (
+                ChemistryConsistencyError, ChemistrySpeciesNotPresentError, ChemistryReactionNotPresentError,
+                RPAttributeError, ReactionAttributeError, AttributeError, KeyError, TypeError, ValueError
+        ):
+            # back track
+            self._enabled_sp, self._protected_sp, self._adhoc_protected_sp, self._enabled_r = bu_masks
+            self.adhoc_species_attributes = bu_adhoc_species_attributes
+            self.adhoc_reactions_attributes = bu_adhoc_reactions_attributes
+            raise ChemistryAttributeError('The attributes are not consistent with the chemistry!')
+
+    def _restore_chemistry_attributes(self, enabled_sp_ids, disabled_sp_ids, protected_sp_ids, adhoc_protected_sp_ids,
+                                      enabled_r_ids, disabled_r_ids, adhoc_species_attributes,
+                                      adhoc_reactions_attributes):
+        """Restores the chemistry attributes as read by self.load_chemistry_attributes. Raises various errors if they
+        are not consistent with the chemistry, leaving it in an undefined state.
+        :return: None
+        """
         # all appears valid, so can start restoring the attributes:
         # ad-hoc attributes (with everything enabled, as return species might have been disabled after they were set):
         self.reset()
-- 
2.43.0

