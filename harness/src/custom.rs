//! PDUs declared with the crate's public `define_pdu!`, the way a user declares PDUs of their own.
//! They are in the schema like the built-in ones and go through the same checks.
use open_dis_rust::{
    common::{
        GenericHeader, SerializedLength,
        data_types::{
            ClockTime, EntityId, EntityType, EventId, VariableParameter, WorldCoordinate,
            antenna_pattern::AntennaPattern, entity_marking::EntityMarking,
            modulation_parameters::ModulationParameters, munition_descriptor::MunitionDescriptor,
        },
        enums::{DetonationResult, ForceId, PduType, ProtocolFamily, SignalTDLType, TransmitterCryptoSystem},
        pdu::Pdu,
        pdu_header::PduHeader,
    },
    define_pdu,
};

define_pdu! {
    #[derive(Debug)]
    pub struct PrimitivesPdu {
        header: PduHeader,
        pdu_type: PduType::TimeSpacePositionInformation,
        protocol_family: ProtocolFamily::LiveEntityInformationInteraction,
        fields: {
            pub a: i8,
            pub b: u8,
            pub c: i16,
            pub d: u16,
            pub e: i32,
            pub f: u32,
            pub g: i64,
            pub h: u64,
            pub i: f32,
            pub j: f64,
            pub k: i64,
            pub l: i8,
        }
    }
}

define_pdu! {
    #[derive(Debug)]
    pub struct ListsPdu {
        header: PduHeader,
        pdu_type: PduType::Appearance,
        protocol_family: ProtocolFamily::LiveEntityInformationInteraction,
        fields: {
            pub n_shorts: u8,
            pub n_ints: u16,
            pub n_longs: u32,
            pub n_doubles: u8,
            pub n_bits: u16,
            #[count = n_shorts]
            pub shorts: Vec<i16>,
            #[count = n_ints]
            pub ints: Vec<i32>,
            pub middle: i16,
            #[count = n_longs]
            pub longs: Vec<u64>,
            #[count = (n_bits.div_ceil(8))]
            pub bits: Vec<u8>,
            #[count = n_doubles]
            pub doubles: Vec<f64>,
            pub end: i32,
        }
    }
}

define_pdu! {
    #[derive(Debug)]
    pub struct OptionalsPdu {
        header: PduHeader,
        pdu_type: PduType::ArticulatedParts,
        protocol_family: ProtocolFamily::NonRealTime,
        fields: {
            pub first_length: u16,
            pub second_length: u8,
            #[len = first_length]
            pub first: Option<AntennaPattern>,
            pub middle: u16,
            pub third_length: u16,
            #[len = second_length]
            pub second: Option<ModulationParameters>,
            #[len = third_length]
            pub third: Option<AntennaPattern>,
            pub end: u8,
        }
    }
}

define_pdu! {
    #[derive(Debug)]
    pub struct RecordsPdu {
        header: PduHeader,
        pdu_type: PduType::LiveEntityFire,
        protocol_family: ProtocolFamily::LiveEntityInformationInteraction,
        fields: {
            pub force: ForceId,
            pub n_ids: u8,
            pub n_params: u8,
            #[count = n_ids]
            pub ids: Vec<EntityId>,
            pub crypto: TransmitterCryptoSystem,
            pub tdl: SignalTDLType,
            pub marking: EntityMarking,
            pub n_places: u16,
            pub descriptor: MunitionDescriptor,
            #[count = n_params]
            pub params: Vec<VariableParameter>,
            pub entity_type: EntityType,
            #[count = n_places]
            pub places: Vec<WorldCoordinate>,
            pub event: EventId,
            pub time: ClockTime,
            pub result: DetonationResult,
        }
    }
}

define_pdu! {
    #[derive(Debug)]
    pub struct SingleBytePdu {
        header: PduHeader,
        pdu_type: PduType::LiveEntityDetonation,
        protocol_family: ProtocolFamily::Other,
        fields: {
            pub only: u8,
        }
    }
}
