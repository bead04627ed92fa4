From c89fea0657ac01901cd5ec83cc26231ef3b2bc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 01/15] fix: decode the list fields of PDUs instead of dropping
 them

Vec<T>::deserialize_field always returned an empty list, so every
variable-length PDU lost its list fields (articulation parameters, datum
records, emitter systems, signal data, ...) on decode. Annotate the lists
with the field that carries their element count and read that many.
---
 src/distributed_emissions.rs                  |  7 ++++
 src/entity_information.rs                     |  3 ++
 src/entity_management.rs                      |  6 ++++
 src/logistics.rs                              |  3 ++
 src/minefield.rs                              |  7 ++++
 src/pdu_macro.rs                              | 35 +++++++++++++++----
 src/radio_communications.rs                   |  4 +++
 src/simulation_management.rs                  | 14 ++++++++
 src/simulation_management_with_reliability.rs | 15 ++++++++
 src/synthetic_environment.rs                  |  5 +++
 src/warfare.rs                                |  3 ++
 11 files changed, 95 insertions(+), 7 deletions(-)

diff --git a/src/distributed_emissions.rs b/src/distributed_emissions.rs
index ad6170c..c691497 100644
--- a/src/distributed_emissions.rs
+++ b/src/distributed_emissions.rs
@@ -45,6 +45,7 @@ define_pdu! {
             pub state_update_indicator: EEAttributeStateIndicator,
             pub number_of_systems: u8,
             padding: u16,
+            #[count = number_of_systems]
             pub systems: Vec<ElectromagneticEmissionSystemData>,
         }
     }
@@ -91,8 +92,11 @@ define_pdu! {
             pub number_of_shafts: u8,
             pub number_of_apas: u8,
             pub number_of_ua_emitter_systems: u8,
+            #[count = number_of_shafts]
             pub shaft_rpms: Vec<ShaftRPMs>,
+            #[count = number_of_apas]
             pub apa_data: Vec<ApaData>,
+            #[count = number_of_ua_emitter_systems]
             pub emitter_systems: Vec<AcousticEmitterSystem>,
         }
     }
@@ -116,6 +120,7 @@ define_pdu! {
             pub layer_header: LayerHeader,
             pub beam_data: BeamData,
             pub secondary_operational_data: SecondaryOperationalData,
+            #[count = (secondary_operational_data.number_of_iff_fundamental_parameter_records)]
             pub iff_parameters: Vec<IFFFundamentalParameterData>,
         }
     }
@@ -135,7 +140,9 @@ define_pdu! {
             pub radar_cross_section_signature_representation_index: u16,
             pub number_of_propulsion_systems: u16,
             pub number_of_vectoring_nozzle_systems: u16,
+            #[count = number_of_propulsion_systems]
             pub propulsion_system_data: Vec<PropulsionSystemData>,
+            #[count = number_of_vectoring_nozzle_systems]
             pub vectoring_nozzle_system_data: Vec<VectoringNozzleSystemData>,
         }
     }
diff --git a/src/entity_information.rs b/src/entity_information.rs
index f97adce..3032605 100644
--- a/src/entity_information.rs
+++ b/src/entity_information.rs
@@ -46,6 +46,7 @@ define_pdu! {
             pub dead_reckoning_parameters: DeadReckoningParameters,
             pub entity_marking: EntityMarking,
             pub entity_capabilities: EntityCapabilities,
+            #[count = number_of_articulation_parameters]
             pub articulation_parameter: Vec<VariableParameter>,
         }
     }
@@ -113,6 +114,7 @@ define_pdu! {
             pub entity_location: WorldCoordinate,
             pub entity_orientation: EulerAngles,
             pub entity_appearance: u32,
+            #[count = number_of_variable_parameters]
             pub variable_parameter_records: Vec<VariableParameter>,
         }
     }
@@ -135,6 +137,7 @@ define_pdu! {
             pub action_code: DISAttributeActionCode,
             padding3: u8,
             pub number_of_attribute_record_sets: u16,
+            #[count = number_of_attribute_record_sets]
             pub attribute_record_sets: Vec<AttributeRecordSet>,
         }
     }
diff --git a/src/entity_management.rs b/src/entity_management.rs
index 157600e..63e4ca7 100644
--- a/src/entity_management.rs
+++ b/src/entity_management.rs
@@ -49,12 +49,17 @@ define_pdu! {
             pub number_of_dis_entities: u16,
             pub number_of_silent_aggregate_types: u16,
             pub number_of_silent_entity_types: u16,
+            #[count = number_of_dis_aggregates]
             pub aggregate_id_list: Vec<AggregateId>,
+            #[count = number_of_dis_entities]
             pub entity_id_list: Vec<EntityId>,
             padding: Vec<u8>,
+            #[count = number_of_silent_aggregate_types]
             pub silent_aggregate_system_list: Vec<EntityType>,
+            #[count = number_of_silent_entity_types]
             pub silent_entity_system_list: Vec<EntityType>,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_list: Vec<VariableDatumRecord>,
         }
     }
@@ -74,6 +79,7 @@ define_pdu! {
             padding: u32,
             pub latitude: f64,
             pub longitude: f64,
+            #[count = number_of_grouped_entities]
             pub grouped_entity_descriptions: Vec<u64>,
         }
     }
diff --git a/src/logistics.rs b/src/logistics.rs
index 5aa9c6d..d76d720 100644
--- a/src/logistics.rs
+++ b/src/logistics.rs
@@ -32,6 +32,7 @@ define_pdu! {
             pub service_type_requested: ServiceRequestServiceTypeRequested,
             pub number_of_supply_types: u8,
             padding: u16,
+            #[count = number_of_supply_types]
             pub supplies: Vec<SupplyQuantity>,
         }
     }
@@ -50,6 +51,7 @@ define_pdu! {
             pub number_of_supply_types: u8,
             padding: u8,
             padding2: u16,
+            #[count = number_of_supply_types]
             pub supplies: Vec<SupplyQuantity>,
         }
     }
@@ -68,6 +70,7 @@ define_pdu! {
             pub number_of_supply_types: u8,
             padding: u8,
             padding2: u16,
+            #[count = number_of_supply_types]
             pub supplies: Vec<SupplyQuantity>,
         }
     }
diff --git a/src/minefield.rs b/src/minefield.rs
index af2f039..61aba31 100644
--- a/src/minefield.rs
+++ b/src/minefield.rs
@@ -38,7 +38,9 @@ define_pdu! {
             pub minefield_orientation: EulerAngles,
             pub appearance: u16,
             pub protocol_mode: MinefieldStateProtocolMode,
+            #[count = number_of_perimeter_points]
             pub perimeter_points: Vec<Point>,
+            #[count = number_of_mine_types]
             pub mine_type: Vec<EntityType>,
         }
     }
@@ -60,7 +62,9 @@ define_pdu! {
             pub number_of_sensor_types: u8,
             pub data_filter: u32,
             pub requested_mine_type: EntityType,
+            #[count = number_of_perimeter_points]
             pub requested_perimeter_points: Vec<Point>,
+            #[count = number_of_sensor_types]
             pub sensor_types: Vec<MinefieldSensorTypes>,
         }
     }
@@ -85,7 +89,9 @@ define_pdu! {
             padding: u8,
             pub data_filter: u32,
             pub mine_type: EntityType,
+            #[count = number_of_sensor_types]
             pub sensor_types: Vec<MinefieldSensorTypes>,
+            #[count = number_of_mines_in_this_pdu]
             pub mine_location: Vec<EntityCoordinateVector>,
             pub ground_burial_depth_offset: Vec<Option<f32>>,
             pub water_burial_depth_offset: Vec<Option<f32>>,
@@ -117,6 +123,7 @@ define_pdu! {
             pub requesting_entity_id: EntityId,
             pub request_id: u8,
             pub number_of_missing_pdus: u8,
+            #[count = number_of_missing_pdus]
             pub missing_pdu_sequence_numbers: Vec<u64>,
         }
     }
diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 48aa5cf..6f337f1 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -47,6 +47,16 @@ where
     }
 }
 
+/// Read a list of `count` elements.
+/// Used by the macro when a field is annotated with `#[count = count_field_name]`.
+pub fn deserialize_list<T: FieldDeserialize, B: Buf>(buf: &mut B, count: usize) -> Vec<T> {
+    let mut list = Vec::new();
+    while list.len() < count {
+        list.push(T::deserialize_field(buf));
+    }
+    list
+}
+
 // Helper macros for generated code. These are kept private to the macro expansion
 // but exported so they can be used from the `define_pdu!` expansion.
 #[macro_export]
@@ -66,6 +76,11 @@ macro_rules! __pdu_prep_serialize_field {
         .unwrap_or_default();
     };
 
+    // List with a count attribute: the count is an ordinary, caller-controlled field
+    ( count = $count:tt ; $self:ident, $field:ident, $t:ty ) => {
+        // nothing to do
+    };
+
     // Default: no-op
     ( ; $self:ident, $field:ident, $t:ty ) => {
         // nothing to do
@@ -98,6 +113,12 @@ macro_rules! __pdu_deserialize_field {
         );
     };
 
+    // List with a count attribute -> read as many elements as the count (an already
+    // decoded field, or a parenthesised expression over such fields) says
+    ( count = $count:tt ; $field:ident, $t:ty, $buf:ident ) => {
+        let $field: $t = $crate::pdu_macro::deserialize_list($buf, $count as usize);
+    };
+
     // Default: plain FieldDeserialize
     ( ; $field:ident, $t:ty, $buf:ident ) => {
         let $field: $t = <$t as $crate::pdu_macro::FieldDeserialize>::deserialize_field($buf);
@@ -222,7 +243,7 @@ macro_rules! define_pdu {
             protocol_family: $protocol_family:expr,
             fields: {
                 $(
-                    $(#[len = $len_field:ident])? $fvis:vis $field:ident : $ftype:ty,
+                    $(#[$attr:ident = $attr_val:tt])? $fvis:vis $field:ident : $ftype:ty,
                 )*
             }
 
@@ -256,11 +277,11 @@ macro_rules! define_pdu {
             /// you should write custom code in the manual body impl below or adapt the macro.
             fn deserialize_body<B: bytes::Buf>(buf: &mut B) -> Self {
                 $(
-                    // Each field can optionally be annotated with `#[len = name]`.
-                    // The helper macro below will either call the plain `FieldDeserialize`
-                    // or the length-aware `FieldDeserializeWithLen` depending on the
-                    // annotation.
-                    $crate::__pdu_deserialize_field!( $( len = $len_field )? ; $field, $ftype, buf );
+                    // Each field can optionally be annotated with `#[len = name]` or
+                    // `#[count = name]`. The helper macro below will call the plain
+                    // `FieldDeserialize`, the length-aware `FieldDeserializeWithLen` or
+                    // `deserialize_list` depending on the annotation.
+                    $crate::__pdu_deserialize_field!( $( $attr = $attr_val )? ; $field, $ftype, buf );
                 )*
 
                 Self {
@@ -306,7 +327,7 @@ macro_rules! define_pdu {
                 // Allow annotated fields to update their associated "length" fields
                 // before we compute the overall PDU length. If a field is annotated
                 // `#[len = foo]` the prep macro will set `self.foo` appropriately.
-                $( $crate::__pdu_prep_serialize_field!( $( len = $len_field )? ; self, $field, $ftype ); )*
+                $( $crate::__pdu_prep_serialize_field!( $( $attr = $attr_val )? ; self, $field, $ftype ); )*
 
                 // compute length the correct way and set it
                 let len = self.calculate_length()?;
diff --git a/src/radio_communications.rs b/src/radio_communications.rs
index dcc8251..9cf1bf7 100644
--- a/src/radio_communications.rs
+++ b/src/radio_communications.rs
@@ -59,6 +59,7 @@ define_pdu! {
             #[len = modulation_parameter_length]
             pub modulation_parameters: Option<ModulationParameters>,
             pub antenna_pattern: Option<AntennaPattern>,
+            #[count = number_of_variable_transmitter_parameters_records]
             pub variable_transmitter_parameters: Vec<VariableTransmitterParameters>,
         }
     }
@@ -79,6 +80,7 @@ define_pdu! {
             pub sample_rate: u32,
             pub data_length: u16,
             pub samples: u16,
+            #[count = (data_length.div_ceil(8))]
             pub data: Vec<u8>,
         }
     }
@@ -118,6 +120,7 @@ define_pdu! {
             pub sample_rate: u32,
             pub data_length: u16,
             pub samples: u16,
+            #[count = (data_length.div_ceil(8))]
             pub data: Vec<u8>,
         }
     }
@@ -143,6 +146,7 @@ define_pdu! {
             pub master_intercom_number: u16,
             pub master_channel_id: u16,
             pub intercom_parameters_length: u32,
+            #[count = (intercom_parameters_length / 8)]
             pub intercom_parameters: Vec<IntercomCommunicationsParameters>,
         }
     }
diff --git a/src/simulation_management.rs b/src/simulation_management.rs
index 8c6a4bc..26c1fef 100644
--- a/src/simulation_management.rs
+++ b/src/simulation_management.rs
@@ -118,7 +118,9 @@ define_pdu! {
             pub action_id: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -138,7 +140,9 @@ define_pdu! {
             pub request_status: ActionResponseRequestStatus,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -158,7 +162,9 @@ define_pdu! {
             pub time_interval: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -178,7 +184,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -198,7 +206,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -218,7 +228,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -236,7 +248,9 @@ define_pdu! {
             pub receiving_entity_id: EntityId,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
diff --git a/src/simulation_management_with_reliability.rs b/src/simulation_management_with_reliability.rs
index 0af891b..1cdec78 100644
--- a/src/simulation_management_with_reliability.rs
+++ b/src/simulation_management_with_reliability.rs
@@ -137,7 +137,9 @@ define_pdu! {
             padding3: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -157,7 +159,9 @@ define_pdu! {
             pub request_status: ActionResponseRequestStatus,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -180,7 +184,9 @@ define_pdu! {
             pub time_interval: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_ids: Vec<VariableRecordTypes>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_ids: Vec<VariableRecordTypes>,
         }
     }
@@ -202,7 +208,9 @@ define_pdu! {
             pub request_id: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -224,7 +232,9 @@ define_pdu! {
             padding2: u16,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -244,7 +254,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -262,7 +274,9 @@ define_pdu! {
             pub receiving_entity_id: EntityId,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -284,6 +298,7 @@ define_pdu! {
             pub event_type: RecordQueryREventType,
             pub time: u32,
             pub number_of_records: u32,
+            #[count = number_of_records]
             pub record_ids: Vec<u32>,
         }
     }
diff --git a/src/synthetic_environment.rs b/src/synthetic_environment.rs
index f9dddd9..7911f91 100644
--- a/src/synthetic_environment.rs
+++ b/src/synthetic_environment.rs
@@ -40,6 +40,7 @@ define_pdu! {
             pub environment_status: u8,
             pub number_of_environment_records: u16,
             pub sequence_number: u16,
+            #[count = number_of_environment_records]
             pub environment_records: Vec<Environment>,
         }
     }
@@ -67,7 +68,9 @@ define_pdu! {
             pub vector_dimension: u8,
             padding: u8,
             padding2: u16,
+            #[count = number_of_grid_axes]
             pub grid_axis_descriptors: Vec<GridAxisDescriptor>,
+            #[count = vector_dimension]
             pub grid_data_list: Vec<GridDataRecord>,
         }
     }
@@ -115,6 +118,7 @@ define_pdu! {
             pub requester_id: SimulationAddress,
             pub receiving_id: SimulationAddress,
             pub object_type: ObjectType,
+            #[count = number_of_segments]
             pub linear_segment_parameters: Vec<LinearSegmentParameter>,
         }
     }
@@ -139,6 +143,7 @@ define_pdu! {
             pub number_of_points: u16,
             pub requester_id: SimulationAddress,
             pub receiving_id: SimulationAddress,
+            #[count = number_of_points]
             pub object_location: Vec<WorldCoordinate>,
         }
     }
diff --git a/src/warfare.rs b/src/warfare.rs
index ce0641e..b6393bb 100644
--- a/src/warfare.rs
+++ b/src/warfare.rs
@@ -60,6 +60,7 @@ define_pdu! {
             pub detonation_result: DetonationResult,
             pub number_of_variable_parameters: u8,
             padding: u16,
+            #[count = number_of_variable_parameters]
             pub variable_parameters: Vec<VariableParameter>,
         }
     }
@@ -90,6 +91,7 @@ define_pdu! {
             padding3: u32,
             padding4: u16,
             pub number_of_de_records: u16,
+            #[count = number_of_de_records]
             pub damage_descriptions: Vec<DirectedEnergyDamage>,
         }
     }
@@ -107,6 +109,7 @@ define_pdu! {
             padding: u16,
             padding2: u16,
             pub number_of_damage_descriptions: u16,
+            #[count = number_of_damage_descriptions]
             pub damage_descriptions: Vec<DirectedEnergyDamage>,
         }
     }
-- 
2.43.0


From 8df34390164d3ce5c3ac4b239400a8116ceee3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 02/15] fix: decode the antenna pattern of a Transmitter PDU

The antenna pattern was written but its length never recorded, and it was
dropped on decode, misaligning the variable transmitter parameters. Wire it
to antenna_pattern_length like the modulation parameters, and reject a value
that does not fit its length field instead of truncating the length.
---
 src/pdu_macro.rs            | 22 +++++++++++-----------
 src/radio_communications.rs |  1 +
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 6f337f1..69b365c 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -62,18 +62,18 @@ pub fn deserialize_list<T: FieldDeserialize, B: Buf>(buf: &mut B, count: usize)
 #[macro_export]
 macro_rules! __pdu_prep_serialize_field {
     // When the field has a length attribute, set the length field before length calculation.
-    ( len = $len_field:ident ; $self:ident, $field:ident, Option<$inner:ty> ) => {
-        $self.$len_field = $self.$field.as_ref().map_or(0u8, |v| {
-            <$inner as $crate::pdu_macro::FieldLen>::field_len(v) as u8
-        });
-    };
-
     ( len = $len_field:ident ; $self:ident, $field:ident, $t:ty ) => {
-        // For non-option fields with length attribute, set the length from the inner value.
-        $self.$len_field = u8::try_from(<$t as $crate::pdu_macro::FieldLen>::field_len(
-            &$self.$field,
-        ))
-        .unwrap_or_default();
+        let field_len = <$t as $crate::pdu_macro::FieldLen>::field_len(&$self.$field);
+        $self.$len_field = field_len.try_into().map_err(|_| {
+            $crate::common::dis_error::DISError::serialization_error(
+                format!(
+                    "{} of {} bytes does not fit its length field",
+                    stringify!($field),
+                    field_len
+                ),
+                None,
+            )
+        })?;
     };
 
     // List with a count attribute: the count is an ordinary, caller-controlled field
diff --git a/src/radio_communications.rs b/src/radio_communications.rs
index 9cf1bf7..edc0300 100644
--- a/src/radio_communications.rs
+++ b/src/radio_communications.rs
@@ -58,6 +58,7 @@ define_pdu! {
             padding2: u16,
             #[len = modulation_parameter_length]
             pub modulation_parameters: Option<ModulationParameters>,
+            #[len = antenna_pattern_length]
             pub antenna_pattern: Option<AntennaPattern>,
             #[count = number_of_variable_transmitter_parameters_records]
             pub variable_transmitter_parameters: Vec<VariableTransmitterParameters>,
-- 
2.43.0


From 7b15f452b184738bee75b5c8ccdc18b0a8acb84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 03/15] fix: read the 32-bit record type of variable
 transmitter parameters

The record type is written as 4 bytes but was read back as 1 byte.
---
 src/common/data_types/variable_transmitter_parameters.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/data_types/variable_transmitter_parameters.rs b/src/common/data_types/variable_transmitter_parameters.rs
index f6764d2..b3d356c 100644
--- a/src/common/data_types/variable_transmitter_parameters.rs
+++ b/src/common/data_types/variable_transmitter_parameters.rs
@@ -3,6 +3,7 @@
 //
 //     Licensed under the BSD-2-Clause License
 use bytes::{Buf, BufMut, BytesMut};
+use num_traits::FromPrimitive;
 
 use crate::common::enums::VariableParameterRecordType;
 use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
@@ -47,7 +48,8 @@ impl VariableTransmitterParameters {
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-        let record_type = VariableParameterRecordType::deserialize(buf);
+        let record_type =
+            VariableParameterRecordType::from_u32(buf.get_u32()).unwrap_or_default();
         let record_length = buf.get_u16();
         let mut record_specific_fields: Vec<u8> = vec![];
         for _ in 0..record_length {
-- 
2.43.0


From c39884eb16e539543e7f1e956558498714cea857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 04/15] fix: write the reference number of a simulation
 identifier

---
 src/common/data_types/simulation_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/data_types/simulation_id.rs b/src/common/data_types/simulation_id.rs
index 20347c5..e00fd05 100644
--- a/src/common/data_types/simulation_id.rs
+++ b/src/common/data_types/simulation_id.rs
@@ -28,7 +28,7 @@ impl SimulationIdentifier {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         self.simulation_address.serialize(buf);
-        buf.put_u16(0u16);
+        buf.put_u16(self.reference_number);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-- 
2.43.0


From 4562c3ab40711c0cc38e009d6bebf98c446370a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 05/15] fix: write the other parameters of dead reckoning
 parameters

---
 src/common/data_types/dead_reckoning_parameters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/data_types/dead_reckoning_parameters.rs b/src/common/data_types/dead_reckoning_parameters.rs
index c13d7ac..ae85a96 100644
--- a/src/common/data_types/dead_reckoning_parameters.rs
+++ b/src/common/data_types/dead_reckoning_parameters.rs
@@ -42,7 +42,7 @@ impl DeadReckoningParameters {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u8(self.dead_reckoning_algorithm as u8);
-        buf.put_bytes(0u8, 15);
+        buf.put_slice(&self.dead_reckoning_other_parameters);
         self.entity_linear_acceleration.serialize(buf);
         self.entity_angular_velocity.serialize(buf);
     }
-- 
2.43.0


From 72ad68048335985ce2f398a778c202d7b37c2fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 06/15] fix: read and count the padding of variable datum
 records

The value was read into a vector already holding as many zeros, the padding
to a 64-bit boundary was left unread, and the PDU length did not count it.
---
 src/common/data_types/datum_records.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/common/data_types/datum_records.rs b/src/common/data_types/datum_records.rs
index e257812..ea3dd1e 100644
--- a/src/common/data_types/datum_records.rs
+++ b/src/common/data_types/datum_records.rs
@@ -60,6 +60,11 @@ impl VariableDatumRecord {
         (length_bits as usize).div_ceil(8)
     }
 
+    /// Bytes that pad the value to a 64-bit boundary
+    const fn padding_bytes(length_bits: u32) -> usize {
+        Self::bytes_count(length_bits).next_multiple_of(8) - Self::bytes_count(length_bits)
+    }
+
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u32(self.datum_id);
         buf.put_u32(self.length_bits);
@@ -72,14 +77,7 @@ impl VariableDatumRecord {
             buf.put_u8(self.value[i]);
         }
 
-        let pad_bits = (64u32 - (self.length_bits % 64)) % 64;
-        let pad_bytes = (pad_bits / 8) as usize;
-        if pad_bytes > 0 {
-            let zeros = vec![0u8; pad_bytes];
-            for z in zeros {
-                buf.put_u8(z);
-            }
-        }
+        buf.put_bytes(0u8, Self::padding_bytes(self.length_bits));
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
@@ -87,10 +85,13 @@ impl VariableDatumRecord {
         let length_bits = buf.get_u32();
         let value_bytes = Self::bytes_count(length_bits);
 
-        let mut value = vec![0u8; value_bytes];
+        let mut value = vec![];
         for _ in 0..value_bytes {
             value.push(buf.get_u8());
         }
+        for _ in 0..Self::padding_bytes(length_bits) {
+            buf.get_u8();
+        }
 
         Self {
             datum_id,
@@ -114,6 +115,9 @@ impl FieldDeserialize for VariableDatumRecord {
 
 impl FieldLen for VariableDatumRecord {
     fn field_len(&self) -> usize {
-        self.datum_id.field_len() + self.length_bits.field_len() + self.value.field_len()
+        self.datum_id.field_len()
+            + self.length_bits.field_len()
+            + self.value.field_len()
+            + Self::padding_bytes(self.length_bits)
     }
 }
-- 
2.43.0


From ad90a49a41db3da60c8fd4a491cb59f3ae084bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 07/15] fix: do not overflow or index out of bounds in record
 specification elements

record_length * record_count overflowed u16, and serialization indexed past
the end of record_values when it was shorter than that product.
---
 src/common/data_types/record_specification_element.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/common/data_types/record_specification_element.rs b/src/common/data_types/record_specification_element.rs
index aa36fa8..fdde754 100644
--- a/src/common/data_types/record_specification_element.rs
+++ b/src/common/data_types/record_specification_element.rs
@@ -39,10 +39,7 @@ impl RecordSpecificationElement {
         buf.put_u32(self.record_set_serial_number);
         buf.put_u16(self.record_length);
         buf.put_u16(self.record_count);
-        let num_record_values: usize = (self.record_length * self.record_count).into();
-        for i in 0..num_record_values {
-            buf.put_u8(self.record_values[i]);
-        }
+        buf.put_slice(&self.record_values);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
@@ -50,7 +47,7 @@ impl RecordSpecificationElement {
         let record_set_serial_number = buf.get_u32();
         let record_length = buf.get_u16();
         let record_count = buf.get_u16();
-        let num_record_values = record_length * record_count;
+        let num_record_values = usize::from(record_length) * usize::from(record_count);
         let mut record_values: Vec<u8> = vec![];
         for _ in 0..num_record_values {
             record_values.push(buf.get_u8());
-- 
2.43.0


From f11639c758c7c762f0ae1250f1a04685c8e9e1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 08/15] fix: write and read entity markings as a fixed 11-byte
 string

The marking was written unpadded and read back as the decimal number of
remaining bytes without consuming anything, which misaligned every Entity
State PDU.
---
 src/common/data_types/entity_marking.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/common/data_types/entity_marking.rs b/src/common/data_types/entity_marking.rs
index 90938f0..ce11c0a 100644
--- a/src/common/data_types/entity_marking.rs
+++ b/src/common/data_types/entity_marking.rs
@@ -11,6 +11,9 @@ pub struct EntityMarking {
 }
 
 impl EntityMarking {
+    /// Size, in bytes, of the marking string on the wire
+    const MARKING_LENGTH: usize = Self::LENGTH - 1;
+
     #[must_use]
     pub const fn new(
         entity_marking_character_set: EntityMarkingCharacterSet,
@@ -24,14 +27,24 @@ impl EntityMarking {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u8(self.entity_marking_character_set as u8);
-        let marking = self.entity_marking_string.clone();
-        buf.put_slice(&marking.into_bytes()[..]);
+        // The string field is always MARKING_LENGTH bytes: cut at a character boundary, zero-padded
+        let mut end = self.entity_marking_string.len().min(Self::MARKING_LENGTH);
+        while !self.entity_marking_string.is_char_boundary(end) {
+            end -= 1;
+        }
+        buf.put_slice(&self.entity_marking_string.as_bytes()[..end]);
+        buf.put_bytes(0u8, Self::MARKING_LENGTH - end);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
+        let entity_marking_character_set = EntityMarkingCharacterSet::deserialize(buf);
+        let mut marking = [0u8; Self::MARKING_LENGTH];
+        buf.copy_to_slice(&mut marking);
         Self {
-            entity_marking_character_set: EntityMarkingCharacterSet::deserialize(buf),
-            entity_marking_string: buf.remaining().to_string(),
+            entity_marking_character_set,
+            entity_marking_string: String::from_utf8_lossy(&marking)
+                .trim_end_matches('\0')
+                .to_string(),
         }
     }
 }
-- 
2.43.0


From a9347074c3e25f1fdbccbfbe7d968fad6c93f900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 09/15] fix: keep all bits when decoding frozen behavior and
 general appearance

A value with any bit the flags do not name (e.g. a percent-complete in the
general appearance) was decoded as zero, dropping the named flags too.
---
 src/common/enums.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/enums.rs b/src/common/enums.rs
index 2b353bb..d8368b4 100644
--- a/src/common/enums.rs
+++ b/src/common/enums.rs
@@ -3682,7 +3682,7 @@ impl FieldSerialize for FrozenBehavior {
 impl FieldDeserialize for FrozenBehavior {
     fn deserialize_field<B: Buf>(buf: &mut B) -> Self {
         let bits = buf.get_u8();
-        Self::from_u8(bits).unwrap_or_default()
+        Self::from_bits_retain(bits)
     }
 }
 
@@ -9451,7 +9451,7 @@ impl FieldSerialize for ObjectStateAppearanceGeneral {
 impl FieldDeserialize for ObjectStateAppearanceGeneral {
     fn deserialize_field<B: Buf>(buf: &mut B) -> Self {
         let bits = buf.get_u16();
-        Self::from_bits(bits).unwrap_or_default()
+        Self::from_bits_retain(bits)
     }
 }
 
-- 
2.43.0


From c98b76a5deb688d06ff1efdb8142f7a77702e7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 10/15] fix: return an error instead of panicking on a
 truncated PDU

Decoding a buffer that ends before the PDU does panicked inside bytes::Buf,
although Pdu::deserialize returns a Result. Decode through a Buf adapter
that notes the shortage and report DISError::BufferUnderflow. Counts from
the wire no longer drive loops or allocations past the end of the input.
---
 src/common/data_types/datum_records.rs        |  7 +-
 src/common/data_types/record_specification.rs |  7 +-
 .../record_specification_element.rs           |  7 +-
 src/common/pdu.rs                             |  6 +-
 src/pdu_macro.rs                              | 75 +++++++++++++++++++
 5 files changed, 85 insertions(+), 17 deletions(-)

diff --git a/src/common/data_types/datum_records.rs b/src/common/data_types/datum_records.rs
index ea3dd1e..7a8e9b5 100644
--- a/src/common/data_types/datum_records.rs
+++ b/src/common/data_types/datum_records.rs
@@ -6,7 +6,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, deserialize_list};
 
 #[derive(Clone, Debug)]
 pub struct FixedDatumRecord {
@@ -85,10 +85,7 @@ impl VariableDatumRecord {
         let length_bits = buf.get_u32();
         let value_bytes = Self::bytes_count(length_bits);
 
-        let mut value = vec![];
-        for _ in 0..value_bytes {
-            value.push(buf.get_u8());
-        }
+        let value = deserialize_list(buf, value_bytes);
         for _ in 0..Self::padding_bytes(length_bits) {
             buf.get_u8();
         }
diff --git a/src/common/data_types/record_specification.rs b/src/common/data_types/record_specification.rs
index ec3bb37..5de4547 100644
--- a/src/common/data_types/record_specification.rs
+++ b/src/common/data_types/record_specification.rs
@@ -5,7 +5,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, deserialize_list};
 
 use super::record_specification_element::RecordSpecificationElement;
 
@@ -36,10 +36,7 @@ impl RecordSpecification {
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let number_of_record_sets = buf.get_u32();
-        let mut record_sets: Vec<RecordSpecificationElement> = vec![];
-        for _i in 0..number_of_record_sets {
-            record_sets.push(RecordSpecificationElement::deserialize(buf));
-        }
+        let record_sets = deserialize_list(buf, number_of_record_sets as usize);
         Self {
             number_of_record_sets,
             record_sets,
diff --git a/src/common/data_types/record_specification_element.rs b/src/common/data_types/record_specification_element.rs
index fdde754..8c4aacf 100644
--- a/src/common/data_types/record_specification_element.rs
+++ b/src/common/data_types/record_specification_element.rs
@@ -5,7 +5,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, deserialize_list};
 
 #[derive(Clone, Debug)]
 pub struct RecordSpecificationElement {
@@ -48,10 +48,7 @@ impl RecordSpecificationElement {
         let record_length = buf.get_u16();
         let record_count = buf.get_u16();
         let num_record_values = usize::from(record_length) * usize::from(record_count);
-        let mut record_values: Vec<u8> = vec![];
-        for _ in 0..num_record_values {
-            record_values.push(buf.get_u8());
-        }
+        let record_values = deserialize_list(buf, num_record_values);
 
         Self {
             record_id,
diff --git a/src/common/pdu.rs b/src/common/pdu.rs
index 5a4387d..d9cf4d5 100644
--- a/src/common/pdu.rs
+++ b/src/common/pdu.rs
@@ -34,13 +34,15 @@ pub trait Pdu {
 
     /// # Errors
     ///
-    /// Will return `DISError` if the PDU header provided is invalid
+    /// Will return `DISError` if the PDU header provided is invalid, or if the buffer ends before
+    /// the PDU does
     fn deserialize<B: Buf>(buf: &mut B) -> Result<Self, DISError>
     where
         Self: Sized;
     /// # Errors
     ///
-    /// Will return `DISError` if the PDU header provided is invalid
+    /// Will return `DISError` if the PDU header provided is invalid, or if the buffer ends before
+    /// the PDU does
     fn deserialize_without_header<B: Buf>(
         buffer: &mut B,
         pdu_header: Self::Header,
diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 69b365c..b3b92d1 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -10,6 +10,8 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
+use crate::common::dis_error::DISError;
+
 /// Serialize a single field into the buffer.
 pub trait FieldSerialize {
     fn serialize_field(&self, buf: &mut BytesMut);
@@ -49,14 +51,81 @@ where
 
 /// Read a list of `count` elements.
 /// Used by the macro when a field is annotated with `#[count = count_field_name]`.
+///
+/// Once `buf` is exhausted a single further read is made, which is enough for `buf` to report the
+/// underflow, so that a corrupt count costs no more than the bytes that are really there.
 pub fn deserialize_list<T: FieldDeserialize, B: Buf>(buf: &mut B, count: usize) -> Vec<T> {
     let mut list = Vec::new();
     while list.len() < count {
+        let exhausted = !buf.has_remaining();
         list.push(T::deserialize_field(buf));
+        if exhausted {
+            break;
+        }
     }
     list
 }
 
+/// `Buf` adapter used to decode a whole PDU from a buffer that may be too short.
+///
+/// Reading past the end of the underlying buffer yields zeros instead of panicking; the shortage
+/// is remembered and turned into an error by [`CheckedBuf::finish`].
+pub struct CheckedBuf<'a, B: Buf> {
+    inner: &'a mut B,
+    available: usize,
+    missing: usize,
+}
+
+impl<'a, B: Buf> CheckedBuf<'a, B> {
+    pub fn new(inner: &'a mut B) -> Self {
+        Self {
+            available: inner.remaining(),
+            missing: 0,
+            inner,
+        }
+    }
+
+    /// # Errors
+    ///
+    /// Will return `DISError::BufferUnderflow` if more bytes were read than were available
+    pub const fn finish(&self) -> Result<(), DISError> {
+        if self.missing == 0 {
+            Ok(())
+        } else {
+            Err(DISError::buffer_underflow(
+                self.available.saturating_add(self.missing),
+                self.available,
+            ))
+        }
+    }
+}
+
+impl<B: Buf> Buf for CheckedBuf<'_, B> {
+    // Never the limit on a read: what is missing is supplied as zeros
+    fn remaining(&self) -> usize {
+        usize::MAX
+    }
+
+    fn has_remaining(&self) -> bool {
+        self.inner.has_remaining()
+    }
+
+    fn chunk(&self) -> &[u8] {
+        const ZEROS: [u8; 64] = [0; 64];
+        if self.inner.has_remaining() {
+            self.inner.chunk()
+        } else {
+            &ZEROS
+        }
+    }
+
+    fn advance(&mut self, cnt: usize) {
+        let present = cnt.min(self.inner.remaining());
+        self.inner.advance(present);
+        self.missing = self.missing.saturating_add(cnt - present);
+    }
+}
+
 // Helper macros for generated code. These are kept private to the macro expansion
 // but exported so they can be used from the `define_pdu!` expansion.
 #[macro_export]
@@ -346,8 +415,11 @@ macro_rules! define_pdu {
 
             fn deserialize<B: bytes::Buf>(buf: &mut B) -> Result<Self, $crate::common::dis_error::DISError>
             where Self: Sized {
+                let buf = &mut $crate::pdu_macro::CheckedBuf::new(buf);
+
                 // deserialize header using its associated function
                 let header: Self::Header = <Self::Header as $crate::pdu_macro::FieldDeserialize>::deserialize_field(buf);
+                buf.finish()?;
 
                 // check PDU type (assumes header exposes pdu_type() method; adapt if different)
                 if header.pdu_type() != $pdu_type {
@@ -359,13 +431,16 @@ macro_rules! define_pdu {
 
                 // read body fields with the generated deserializer
                 let mut body = Self::deserialize_body(buf);
+                buf.finish()?;
                 body.header = header;
                 Ok(body)
             }
 
             fn deserialize_without_header<B: bytes::Buf>(buf: &mut B, header: Self::Header) -> Result<Self, $crate::common::dis_error::DISError>
             where Self: Sized {
+                let buf = &mut $crate::pdu_macro::CheckedBuf::new(buf);
                 let mut body = Self::deserialize_body(buf);
+                buf.finish()?;
                 body.header = header;
                 Ok(body)
             }
-- 
2.43.0


From 4677021adedb7021e2b94cd5e990276dbda50731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 11/15] fix: enforce the maximum PDU size of 8192 octets

calculate_length and serialize only failed above 65535 octets, while the
error they return and MAX_PDU_SIZE_OCTETS name 8192 as the maximum.
---
 src/pdu_macro.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index b3b92d1..1eb39cd 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -374,10 +374,13 @@ macro_rules! define_pdu {
                     len += <$ftype as $crate::pdu_macro::FieldLen>::field_len(&self.$field);
                 )*
 
-                u16::try_from(len).map_err(|_| $crate::common::dis_error::DISError::PduSizeExceeded {
-                    size: len,
-                    max_size: $crate::common::constants::MAX_PDU_SIZE_OCTETS,
-                })
+                u16::try_from(len)
+                    .ok()
+                    .filter(|_| $crate::common::constants::validate_pdu_size(len))
+                    .ok_or($crate::common::dis_error::DISError::PduSizeExceeded {
+                        size: len,
+                        max_size: $crate::common::constants::MAX_PDU_SIZE_OCTETS,
+                    })
             }
 
             fn header(&self) -> &Self::Header {
-- 
2.43.0


From c6c3c5f2624d6eb2e76f4c6476626d4dd2eecaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 12/15] fix: keep vector magnitude and normalization from over-
 or underflowing

Squaring in f32 made the magnitude of a vector of length 1e30 infinite (and
its normalization the zero vector) and that of a vector of length 1e-30 zero.
---
 src/common/data_types/vector3_float.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/common/data_types/vector3_float.rs b/src/common/data_types/vector3_float.rs
index df12a1e..6e28b3a 100644
--- a/src/common/data_types/vector3_float.rs
+++ b/src/common/data_types/vector3_float.rs
@@ -75,20 +75,30 @@ impl Vector3Float {
 
     /// Computes the magnitude (length) of the vector.
     #[must_use]
+    #[allow(clippy::cast_possible_truncation)]
     pub fn magnitude(&self) -> f32 {
-        self.z
-            .mul_add(self.z, self.x.mul_add(self.x, self.y * self.y))
-            .sqrt()
+        self.magnitude_f64() as f32
+    }
+
+    // The squares of finite f32 components neither overflow nor underflow in f64
+    fn magnitude_f64(&self) -> f64 {
+        let (x, y, z) = (f64::from(self.x), f64::from(self.y), f64::from(self.z));
+        z.mul_add(z, x.mul_add(x, y * y)).sqrt()
     }
 
     /// Returns a normalized version of this vector (unit length).
     #[must_use]
+    #[allow(clippy::cast_possible_truncation)]
     pub fn normalize(&self) -> Option<Self> {
-        let mag = self.magnitude();
+        let mag = self.magnitude_f64();
         if mag == 0.0 {
             None
         } else {
-            Some(Self::new(self.x / mag, self.y / mag, self.z / mag))
+            Some(Self::new(
+                (f64::from(self.x) / mag) as f32,
+                (f64::from(self.y) / mag) as f32,
+                (f64::from(self.z) / mag) as f32,
+            ))
         }
     }
 
-- 
2.43.0


From 3c86459b094d884e6bb12d191b844e217b352f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 13/15] fix: compute the DIS timestamp from one clock reading,
 in exact time units

Minute, second and fraction came from three readings of the clock, so a
reading across a second or minute boundary was off by up to a minute; the
unit was rounded to 1.68 us (8 s off at the end of the hour) and the value
computed in f32, which cannot resolve single units.
---
 src/common/live_entity_pdu_header.rs | 17 +++++++----------
 src/common/pdu_header.rs             | 17 +++++++----------
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/common/live_entity_pdu_header.rs b/src/common/live_entity_pdu_header.rs
index 5dad17b..fb70625 100644
--- a/src/common/live_entity_pdu_header.rs
+++ b/src/common/live_entity_pdu_header.rs
@@ -118,17 +118,14 @@ impl LiveEntityPduHeader {
 
     /// Gets the current time in terms of IEEE-1278.1 DIS time units
     #[must_use]
-    #[allow(
-        clippy::cast_precision_loss,
-        clippy::cast_possible_truncation,
-        clippy::cast_sign_loss
-    )]
+    #[allow(clippy::cast_possible_truncation)]
     pub fn calculate_dis_timestamp() -> u32 {
-        let minute_curr = u64::from((Utc::now().minute() * 60) * 1_000_000);
-        let second_curr = u64::from(Utc::now().second() * 1_000_000);
-        let nanosecond_curr = u64::from(Utc::now().nanosecond() / 1000);
-        let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;
-        dis_time as u32
+        // One hour is 2^31 time units
+        const MICROSECONDS_PER_HOUR: u64 = 3_600_000_000;
+        let now = Utc::now();
+        let seconds = u64::from(now.minute() * 60 + now.second());
+        let microseconds = seconds * 1_000_000 + u64::from(now.nanosecond() / 1000);
+        ((microseconds << 31) / MICROSECONDS_PER_HOUR) as u32
     }
 }
 
diff --git a/src/common/pdu_header.rs b/src/common/pdu_header.rs
index 1df3098..d7bbee7 100644
--- a/src/common/pdu_header.rs
+++ b/src/common/pdu_header.rs
@@ -240,17 +240,14 @@ impl PduHeader {
 
     /// Gets the current time in terms of IEEE-1278.1 DIS time units
     #[must_use]
-    #[allow(
-        clippy::cast_precision_loss,
-        clippy::cast_possible_truncation,
-        clippy::cast_sign_loss
-    )]
+    #[allow(clippy::cast_possible_truncation)]
     pub fn calculate_dis_timestamp() -> u32 {
-        let minute_curr = u64::from((Utc::now().minute() * 60) * 1_000_000);
-        let second_curr = u64::from(Utc::now().second() * 1_000_000);
-        let nanosecond_curr = u64::from(Utc::now().nanosecond() / 1000);
-        let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;
-        dis_time as u32
+        // One hour is 2^31 time units
+        const MICROSECONDS_PER_HOUR: u64 = 3_600_000_000;
+        let now = Utc::now();
+        let seconds = u64::from(now.minute() * 60 + now.second());
+        let microseconds = seconds * 1_000_000 + u64::from(now.nanosecond() / 1000);
+        ((microseconds << 31) / MICROSECONDS_PER_HOUR) as u32
     }
 
     /// Looks at the PDU type from a raw byte buffer.
-- 
2.43.0


From 292c79c70af398eb9bd4d853d47b9c24eede1cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 14/15] fix: read the 16-bit sample type and representation of
 grid data records

Both are written as 2 bytes but were read back, and counted, as 1 byte.
---
 src/common/data_types/grid_data_record.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/data_types/grid_data_record.rs b/src/common/data_types/grid_data_record.rs
index c64ed29..0e6f811 100644
--- a/src/common/data_types/grid_data_record.rs
+++ b/src/common/data_types/grid_data_record.rs
@@ -4,6 +4,7 @@
 //     Licensed under the BSD-2-Clause License
 
 use bytes::{Buf, BufMut, BytesMut};
+use num_traits::FromPrimitive;
 
 use crate::{
     common::enums::{GriddedDataDataRepresentation, GriddedDataSampleType},
@@ -131,8 +132,9 @@ impl GridDataRecord {
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-        let sample_type = GriddedDataSampleType::deserialize(buf);
-        let data_representation = GriddedDataDataRepresentation::deserialize(buf);
+        let sample_type = GriddedDataSampleType::from_u16(buf.get_u16()).unwrap_or_default();
+        let data_representation =
+            GriddedDataDataRepresentation::from_u16(buf.get_u16()).unwrap_or_default();
         let data = match data_representation {
             GriddedDataDataRepresentation::Type0 => {
                 let number_of_octets = buf.get_u16();
@@ -210,6 +212,6 @@ impl FieldDeserialize for GridDataRecord {
 
 impl FieldLen for GridDataRecord {
     fn field_len(&self) -> usize {
-        self.sample_type.field_len() + self.data_representation.field_len() + self.data.field_len()
+        2 /* sample_type u16 */ + 2 /* data_representation u16 */ + self.data.field_len()
     }
 }
-- 
2.43.0


From b65532402cbe65dd0c5899b431ebcf8f2300deb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 15/15] fix: refuse the header of another PDU type when
 decoding a body

deserialize_without_header documents an error for an invalid header, but
took any header: the body of one PDU type was decoded under the header,
and thus the type, of another.
---
 src/pdu_macro.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 1eb39cd..edb2f98 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -441,6 +441,13 @@ macro_rules! define_pdu {
 
             fn deserialize_without_header<B: bytes::Buf>(buf: &mut B, header: Self::Header) -> Result<Self, $crate::common::dis_error::DISError>
             where Self: Sized {
+                if header.pdu_type() != $pdu_type {
+                    return Err($crate::common::dis_error::DISError::invalid_header(
+                        format!("Expected PDU type {:?}, got {:?}", $pdu_type, header.pdu_type()),
+                        None,
+                    ));
+                }
+
                 let buf = &mut $crate::pdu_macro::CheckedBuf::new(buf);
                 let mut body = Self::deserialize_body(buf);
                 buf.finish()?;
-- 
2.43.0

