// Generated by tools/gen.py from schema/schema.json. Do not edit.
#![allow(deprecated, unreachable_patterns, clippy::all)]
use crate::model::*;
use open_dis_rust as odr;

conv_enum!(ProtocolVersion, u8; (0, Other) (1, DIS_PDUv1) (2, IEEE1278_1993) (3, DIS_PDUv2_Third_Draft) (4, DIS_PDUv2_Fourth_Draft_Revised) (5, IEEE1278_1_1995) (6, IEEE1278_1A_1998) (7, IEEE1278_1_2012));
conv_enum!(PduType, u8; (0, Other) (1, EntityState) (2, Fire) (3, Detonation) (4, Collision) (5, ServiceRequest) (6, ResupplyOffer) (7, ResupplyReceived) (8, ResupplyCancel) (9, RepairComplete) (10, RepairResponse) (11, CreateEntity) (12, RemoveEntity) (13, StartResume) (14, StopFreeze) (15, Acknowledge) (16, ActionRequest) (17, ActionResponse) (18, DataQuery) (19, SetData) (20, Data) (21, EventReport) (22, Comment) (23, ElectromagneticEmission) (24, Designator) (25, Transmitter) (26, Signal) (27, Receiver) (28, IFF) (29, UnderwaterAcoustic) (30, SupplementalEmission) (31, IntercomSignal) (32, IntercomControl) (33, AggregateState) (34, IsGroupOf) (35, TransferOwnership) (36, IsPartOf) (37, MinefieldState) (38, MinefieldQuery) (39, MinefieldData) (40, MinefieldResponseNack) (41, EnvironmentalProcess) (42, GriddedData) (43, PointObjectState) (44, LinearObjectState) (45, ArealObjectState) (46, TimeSpacePositionInformation) (47, Appearance) (48, ArticulatedParts) (49, LiveEntityFire) (50, LiveEntityDetonation) (51, CreateEntityReliable) (52, RemoveEntityReliable) (53, StartResumeReliable) (54, StopFreezeReliable) (55, AcknowledgeReliable) (56, ActionRequestReliable) (57, ActionResponseReliable) (58, DataQueryReliable) (59, SetDataReliable) (60, DataReliable) (61, EventReportReliable) (62, CommentReliable) (63, RecordReliable) (64, SetRecordReliable) (65, RecordQueryReliable) (66, CollisionElastic) (67, EntityStateUpdate) (68, DirectedEnergyFire) (69, EntityDamageStatus) (70, InformationOperationsAction) (71, InformationOperationsReport) (72, Attribute));
conv_enum!(ProtocolFamily, u8; (0, Other) (1, EntityInformation) (2, Warfare) (3, Logistics) (4, RadioCommunications) (5, SimulationManagement) (6, DistributedEmissionRegeneration) (7, EntityManagement) (8, Minefield) (9, SyntheticEnvironment) (10, SimulationManagementWithReliability) (11, LiveEntityInformationInteraction) (12, NonRealTime) (13, InformationOperations));
conv_enum!(ForceId, u8; (0, Other) (1, Friendly) (2, Opposing) (3, Neutral) (4, Friendly2) (5, Opposing2) (6, Neutral2) (7, Friendly3) (8, Opposing3) (9, Neutral3) (10, Friendly4) (11, Opposing4) (12, Neutral4) (13, Friendly5) (14, Opposing5) (15, Neutral5) (16, Friendly6) (17, Opposing6) (18, Neutral6) (19, Friendly7) (20, Opposing7) (21, Neutral7) (22, Friendly8) (23, Opposing8) (24, Neutral8) (25, Friendly9) (26, Opposing9) (27, Neutral9) (28, Friendly10) (29, Opposing10) (30, Neutral10));
conv_enum!(EntityKind, u8; (0, Other) (1, Platform) (2, Munition) (3, LifeForm) (4, Environmental) (5, CulturalFeature) (6, Supply) (7, Radio) (8, Expendable) (9, SensorEmitter));
conv_enum!(OtherKinds, u8; (0, Other) (1, Land) (2, Air) (3, Surface) (4, Subsurface) (5, Space));
conv_enum!(LandDomainCategories, u8; (0, Other) (1, Tank) (2, ArmoredFightingVehicle) (3, ArmoredUtilityVehicle) (4, SelfPropelledArtillery) (5, TowedArtillery) (6, SmallWheeledUtilityVehicle) (7, LargeWheeledUtilityVehicle) (8, SmallTrackedUtilityVehicle) (9, LargeTrackedUtilityVehicle) (10, Mortar) (11, MinePlow) (12, MineRake) (13, MineRoller) (14, CargoTrailer) (15, FuelTrailer) (16, GeneratorTrailer) (17, WaterTrailer) (18, EngineerEquipment) (19, HeavyEquipmentTransportTrailer) (20, MaintenanceEquipmentTrailer) (21, Limber) (22, ChemicalDecontaminationTrailer) (23, WarningSystem) (24, TrainEngine) (25, TrainCar) (26, TrainCaboose) (27, CivilianVehicle) (28, AirDefenseMissileDefenseUnitEquipment) (29, C3ISystem) (30, OperationsFacility) (31, IntelligenceFacility) (32, SurveillanceFacility) (33, CommunicationsFacility) (34, CommandFacility) (35, C4IFacility) (36, ControlFacility) (37, FireControlFacility) (38, MissileDefenseFacility) (39, FieldCommandPost) (40, ObservationPost) (41, MineFlail) (50, Unmanned) (80, Motorcycle) (81, Car) (82, Bus) (83, SingleUnitCargoTruck) (84, SingleUnitUtilityEmergencyTruck) (85, MultipleUnitCargoTruck) (86, MultipleUnitUtilityEmergencyTruck) (87, ConstructionSpecialtyVehicle) (88, FarmSpecialtyVehicle) (89, Trailer) (90, Recreational) (91, NonMotorized) (92, Trains) (93, UtilityEmergencyCar));
conv_enum!(AirDomainCategories, u8; (0, Other) (1, FighterAirDefense) (2, AttackStrike) (3, Bomber) (4, CargoTanker) (5, ASWPatrolObservation) (6, ElectronicWarfare) (7, Reconnaissance) (8, SurveillanceC2) (9, AirSeaRescue) (20, AttackHelicopter) (21, UtilityHelicopter) (22, AntiSubmarineWarfarePatrolHelicopter) (23, CargoHelicopter) (24, ObservationHelicopter) (25, SpecialOperationsHelicopter) (26, TrainingHelicopter) (40, Trainer) (50, Unmanned) (57, NonCombatantCommercialAircraft) (80, CivilianUltralightAircraftNonrigidWing) (81, CivilianUltralightAircraftRigidWing) (83, CivilianFixedWingAircraftGlider) (84, CivilianFixedWingAircraftLightSport) (85, CivilianFixedWingAircraftSmall) (86, CivilianFixedWingAircraftMedium) (87, CivilianFixedWingAircraftLarge) (88, CivilianFixedWingAircraftHeavy) (90, CivilianHelicopterSmall) (91, CivilianHelicopterMedium) (92, CivilianHelicopterLarge) (93, CivilianAutogyro) (100, CivilianLighterthanAirBalloon) (101, CivilianLighterthanAirAirship));
conv_enum!(SurfaceDomainCategories, u8; (0, Other) (1, Carrier) (2, CommandShipCruiser) (3, GuidedMissileCruiser) (4, GuidedMissileDestroyer) (5, Destroyer) (6, GuidedMissileFrigate) (7, LightPatrolCraft) (8, MineCountermeasureShipCraft) (9, DockLandingShip) (10, TankLandingShip) (11, LandingCraft) (12, LightCarrier) (13, CruiserHelicopterCarrier) (14, Hydrofoil) (15, AirCushionSurfaceEffect) (16, Auxiliary) (17, AuxiliaryMerchantMarine) (18, Utility) (19, UnmannedSurfaceVehicle) (20, LittoralCombatShips) (21, SurveillanceShip) (50, Frigate) (51, Battleship) (52, HeavyCruiser) (53, DestroyerTender) (54, AmphibiousAssaultShip) (55, AmphibiousCargoShip) (56, AmphibiousTransportDock) (57, AmmunitionShip) (58, CombatStoresShip) (59, SurveillanceTowedArraySonarSystem) (60, FastCombatSupportShip) (61, NonCombatantShip) (62, CoastGuardCutters) (63, CoastGuardBoats) (64, FastAttackCraft) (65, InflatableBoat) (80, PassengerVessel) (81, DryCargoShip) (82, Tanker) (83, OffshoreSupportVessel) (84, PrivateMotorboat) (85, PrivateSailboat) (86, FishingVessel) (87, OtherVessels) (100, SearchandRescueVessels) (101, LifeSavingEquipment));
conv_enum!(SubsurfaceDomainCategories, u8; (0, Other) (1, SSBN) (2, SSGN) (3, SSN) (4, SSG) (5, SS) (6, SSAN) (7, SSA) (8, UnmannedUnderwaterVehicle) (9, SSB) (10, SSC) (11, SSP) (12, SSM) (13, SSNR) (14, SST) (15, AGSS) (16, SemiSubmersibleBoats) (80, CivilianSubmarines) (81, CivilianSubmersibles) (82, CivilianSemiSubmersibleBoats));
conv_enum!(SpaceDomainCategories, u8; (0, Other) (1, MannedSpacecraft) (2, Unmanned) (3, Booster) (10, Debris) (11, SatelliteUnknownUnspecifiedMission) (12, SatelliteCommunication) (13, SatelliteNavigation) (14, SatelliteScienceExperimentalDemonstration) (15, SatelliteInert) (16, SatelliteEarthObservation) (17, SatelliteSpaceSurveillance) (18, SatelliteAstronomy));
conv_enum!(MunitionKind, u8; (0, Other) (1, AntiAir) (2, AntiArmor) (3, AntiGuidedWeapon) (4, AntiRadar) (5, AntiSatellite) (6, AntiShip) (7, AntiSubmarine) (8, AntiPersonnel) (9, BattlefieldSupport) (10, Strategic) (11, Tactical) (12, DirectedEnergyWeapon));
conv_enum!(MunitionCategory, u8; (0, Other) (1, Guided) (2, Ballistic) (3, Fixed));
conv_enum!(USWeaponSubcategories, u8; (1, AssaultMachinePistolKFAMP) (2, AutomaticModel1911A1_45) (3, CombatMasterMarkVI_45Detronics) (4, DecockerKP90DC_45) (5, DecockerKP91DC_40) (6, GeneralOfficersModel15_45) (7, Nova9mmLaFrance) (8, PersonalDefenseWeaponMP5KPDW9mm) (9, SilencedColt_45LaFrance) (10, _5900Series9mmSmithWessonSW) (11, M9) (12, Model1911A1SpringfieldArmory) (13, Model20009mm) (14, P99mmSpringfieldArmory) (15, P129mm) (16, P85MarkII9mmRuger) (17, AdvancedCombatRifle5_56mmAAI) (18, CommandoAssaultRifleModel7335_56mmColt) (19, InfantryRifleMini1420GB5_56mmRuger) (20, Mini145_56mmRuger) (21, MiniThirty7_62mmRuger) (22, SemiAutomaticModel82A2_50Barrett) (23, SniperWeaponSystemM247_62mm) (24, SnipingRifleM21SpringfieldArmory) (25, SnipingRifleM40A17_62mm) (26, SnipingRifleM6007_62mm) (27, AR15M165_56mm) (28, M1_30_1) (29, M147_62mmNATO) (30, M14M1AM1A1A1SpringfieldArmory) (31, M14KAssaultRifleLaFrance) (32, M16A2AssaultRifle5_56mmColt) (33, M217_62mmU_S_) (34, M77MarkII5_56mmRuger) (35, M77V7_62mmRuger) (36, S167_62x36mmGrendel) (37, SAR87_62mm) (38, SAR48007_62mm) (39, AssaultCarbineM16KLaFrance) (40, M1_30_2) (41, M4Model7205_56mmColt) (42, M9009mmCalico) (43, AC556F5_56mmRuger) (44, M3_45) (45, M11Cobray) (46, M9519mmCalico) (47, MP51010mm) (48, _9mmColt) (49, Ingram) (50, ExternallyPoweredEPG7_62mmAres) (51, GECAL50) (52, GeneralPurposeM607_62mm) (53, HeavyM2HBQCB_50RAMO) (54, LightassaultM60E3Enhanced7_62mm) (55, LightM16A25_56mmColt) (56, Light5_56mmAres) (57, LightweightM2_50RAMO) (58, LightweightAssaultM60E37_62mm) (59, MinigunM1347_62mmGeneralElectric) (60, MGsystemMK19Mod340mm) (61, MGsystemorkitM2HBQCB_50SacoDefense) (62, M1919A4_30calBrowning) (63, _50calBrowning) (64, ColoredSmokeHandGrenadeM18) (65, ColoredSmokeGrenadesFederalLaboratories) (66, InfraredSmokeGrenadeM76) (67, SmokeHandGrenadeANM8HC) (68, DelayFragmentationHandGrenadeM61) (69, DelayFragmentationHandGrenadeM67) (70, ImpactFragmentationHandGrenadeM57) (71, ImpactFragmentationHandGrenadeM68) (72, IncendiaryHandGrenadeANM14TH3) (73, LauncherIM20340mm) (74, LauncherM7940mm) (75, MultipleGrenadeLauncherMM140mm) (76, MultiShotPortableFlameWeaponM202A266mm) (77, PortableABCM97) (78, PortableM2A17) (79, PortableM9E17) (80, DragonMediumAntiArmorMissileM47FGM77A) (81, JavelinAAWSM) (82, LightAntiTankWeaponM72LAWII) (83, RedeyeFIM43GeneralDynamics) (84, SaberDualPurposeMissileSystem) (85, StingerFIM92GeneralDynamics) (86, TOWheavyAntiTankweapon) (87, BearTrapAPDevicePancor) (88, ChainGunAutomaticWeaponEX347_62mm) (89, CloseAssaultWeaponSystemCAWSAAI) (90, CAWSOlinHecklerAndKoch) (91, CrossfireSAMModel88) (92, DragonAndM16) (93, FiringPortWeaponM2315_56mmColt) (94, FoxholeDiggerExplosiveKitEXFODA) (95, InfantrySupportWeaponASP30RM30mm) (96, JackhammerMk3A2Pancor) (97, LightAntiArmorWeaponM136AT4) (98, M26A2) (99, MasterKeyS) (100, Minigun5_56mm) (101, MultipurposeIndividualMunitionMPIMMarquardt) (102, MultipurposeWeaponAT8) (103, RecoillessRifleM40M40A2andM40A4106mm) (104, RecoillessRifleM6790mm) (105, RevolverSP101) (106, RevolverSuperRedhawk_44MagnumRuger) (107, RAWRocket140mmBrunswick) (108, RifleLauncherAntiArmorMunitionRAAMOlin) (109, RocketLauncherM203_5in) (110, RocketLauncherEnhancedM72EseriesHEAT66mm) (111, SelectiveFireWeaponAC5565_56mmRuger) (112, SelectiveFireWeaponAC556F5_56mmRuger) (113, ShotgunM870Mk1U_S_MarineCorpsRemington) (114, SMAWMk19383mmMcDonnellDouglas) (115, SMAWDDisposableSMAW) (116, SquadAutomaticWeaponSAWM2495_56mm) (117, TacticalSupportWeapon5012_50calPeregrine) (118, TelescopedAmmunitionRevolverGunTARG_50calAres) (119, UltimateOverUnderCombinationCiener) (120, M18A1ClaymoreMine) (121, Mortar81mm) (134, MachinegunM2407_62mm));
conv_enum!(RussiaWeaponSubcategories, u8; (201, Automatic9mmStechkin) (202, PSM5_45mm) (203, Selfloading9mmMakarov) (204, TT337_62mmTokarev) (205, AssaultrifleAKandAKM7_62mm) (206, AssaultrifleAK74andAKS745_45mm) (207, Selfloadingrifle7_62mmSimonov) (208, SniperrifleSVD7_62mmDragunov) (209, AKSU745_45mm) (210, PPS437_62mm) (211, PPSh417_62mm) (212, GeneralpurposePK7_62mm) (213, HeavyDShK38andModel384612_7mmDegtyarev) (214, HeavyNSV12_7mm) (215, LightRPD7_62mm) (216, LightRPK7_62mm) (217, LightRPK745_45mm) (218, HandGrenadeM75) (219, HandGrenadeRGD5) (220, APHandGrenadeF1) (221, ATHandGrenadeRKG3) (222, ATHandGrenadeRKG3M) (223, ATHandGrenadeRKG3T) (224, FragmentationHandGrenadeRGN) (225, FragmentationHandGrenadeRGO) (226, SmokeHandGrenadeRDG1) (227, Plamyalauncher30mmAGS17) (228, RiflemountedlauncherBG1540mm) (229, LPO50) (230, ROKS3) (231, CartmountedTPO50) (232, GimletSA16) (233, GrailSA7) (234, GremlinSA14) (235, SaggerAT3) (236, SaxhornAT7) (237, SpigotABAT14) (238, SA18) (239, SA19) (240, Grad1PmanPortableTripodRocketLauncher122mm) (241, LightAntiArmorWeaponRPG18) (242, LightAntiTankWeaponRPG22) (243, MGRPG) (244, PortableRocketLauncherRPG16) (245, RecoillessGun73mmSPG9) (246, VATRocketLauncherRPG7) (248, Mon50AntiPersonnelMine) (249, RPG29Vampir) (250, LaserDesignator) (251, AT4Spigot) (252, SA24IglaS) (253, Type69RPG));
conv_enum!(UKWeaponSubcategories, u8; (1, LAW80) (2, Blowpipe) (3, Javelin) (4, _51mmmortar) (5, SLR7_62mmrifle) (6, Sterling9mmsubmachinegun) (7, L7A2generalpurposeMG) (8, L6WombatRecoillessrifle) (9, CarlGustav89mmrecoillessrifle) (10, SA80Individuallightsupportweapon) (11, Trigat) (12, MilanATmissile));
conv_enum!(FrenchWeaponSubcategories, u8; (1, ACLSTRIM) (2, Mistralmissile) (3, MilanATmissile) (4, LRACF189mmATrocketlauncher) (5, FAMASrifle) (6, AA52machinegun) (7, _58mmriflegrenade) (8, FRF1sniperrifle));
conv_enum!(LifeFormsSubcategoryGermanWeapons, u8; (1, G3rifle) (2, G11rifle) (3, P1pistol) (4, MG3machinegun) (5, Milanmissile) (6, MP1Uzisubmachinegun) (7, Panzerfaust3LightAntiTankWeapon) (8, DM19HandGrenade) (9, DM29HandGrenade));
conv_enum!(EnvironmentalSubcategory, u8; (0, Other) (20, VerySmall) (40, Small) (60, Medium) (80, Large) (100, VeryLarge));
conv_enum!(RadioCategory, u8; (0, Other) (1, VoiceTransmissionReception) (2, DataLinkTransmissionReception) (3, VoiceandDataLinkTransmissionReception) (4, InstrumentedLandingSystemGlideslopeTransmitter) (5, InstrumentedLandingSystemLocalizerTransmitter) (6, InstrumentedLandingSystemOuterMarkerBeacon) (7, InstrumentedLandingSystemMiddleMarkerBeacon) (8, InstrumentedLandingSystemInnerMarkerBeacon) (9, InstrumentedLandingSystem) (10, TacticalAirNavigationTACANTransmitter) (11, TacticalAirNavigationTACANReceiver) (12, TacticalAirNavigationTACANTransmitterReceiver) (13, VariableOmniRangingVORTransmitter) (14, VariableOmniRangingVORWithDistanceMeasuringEquipmentTransmitter) (15, CombinedVORILSReceiver) (16, CombinedVORTACANTransmitter) (17, NonDirectionalBeaconTransmitter) (18, NonDirectionalBeaconReceiver) (19, NonDirectionalBeaconWithDistanceMeasuringEquipmentTransmitter) (20, DistanceMeasuringEquipment) (21, Link16Terminal) (22, Link11Terminal) (23, Link11BTerminal) (24, EPLRSSADLTerminal) (25, F22IntraFlightDataLink) (26, F35MultifunctionAdvancedDataLink) (27, SINCGARSTerminal) (28, LBandSATCOMTerminal) (29, IBSTerminal) (30, GPS) (31, TacticalVideo) (32, AirtoAirMissileDatalink) (33, Link16SurrogateforNonNATOTDLTerminal) (34, MQ19CBandLOSDatalink) (35, MQ19KuBandSATCOMDatalink) (36, AirtoGroundWeaponDatalink) (37, AutomaticIdentificationSystem) (38, JPALSDataLink) (40, CombatSearchandRescueRadio) (41, CounterUnmannedAircraftSystemRadio) (42, EmergencyPositionIndicatingRadioBeacons) (50, ElectronicAttackSystems) (51, TacticalTargetingNetworkTechnology));
conv_enum!(RadioSubcategory, u8; (0, Other) (1, JointElectronicsTypeDesignationSystemNonspecificSeries) (2, ManufacturerDesignation) (3, NationalDesignation) (11, JETDSARCSet1) (12, JETDSARCSet2) (13, JETDSARCSet3) (14, JETDSARCSet4) (15, JETDSBRCSet1) (16, JETDSBRCSet2) (17, JETDSBRCSet3) (18, JETDSBRCSet4) (19, JETDSCRCSet1) (20, JETDSCRCSet2) (21, JETDSCRCSet3) (22, JETDSCRCSet4) (23, JETDSDRCSet1) (24, JETDSDRCSet2) (25, JETDSDRCSet3) (26, JETDSDRCSet4) (27, JETDSFRCSet1) (28, JETDSFRCSet2) (29, JETDSFRCSet3) (30, JETDSFRCSet4) (31, JETDSGRCSet1) (32, JETDSGRCSet2) (33, JETDSGRCSet3) (34, JETDSGRCSet4) (35, JETDSKRCSet1) (36, JETDSKRCSet2) (37, JETDSKRCSet3) (38, JETDSKRCSet4) (39, JETDSMRCSet1) (40, JETDSMRCSet2) (41, JETDSMRCSet3) (42, JETDSMRCSet4) (43, JETDSPRCSet1) (44, JETDSPRCSet2) (45, JETDSPRCSet3) (46, JETDSPRCSet4) (47, JETDSSRCSet1) (48, JETDSSRCSet2) (49, JETDSSRCSet3) (50, JETDSSRCSet4) (51, JETDSTRCSet1) (52, JETDSTRCSet2) (53, JETDSTRCSet3) (54, JETDSTRCSet4) (55, JETDSVRCSet1) (56, JETDSVRCSet2) (57, JETDSVRCSet3) (58, JETDSVRCSet4) (59, JETDSWRCSet1) (60, JETDSWRCSet2) (61, JETDSWRCSet3) (62, JETDSWRCSet4) (63, JETDSZRCSet1) (64, JETDSZRCSet2) (65, JETDSZRCSet3) (66, JETDSZRCSet4));
conv_enum!(ExpendableAirCategory, u8; (0, Other) (1, Chaff) (2, Flare) (3, CombinedChaffandFlare) (4, ActiveEmitter) (5, PassiveDecoy) (6, WingedDecoy) (7, SignalIlluminationFlare) (8, SmokeGenerator) (12, CombinedFlareandSmokeGenerator) (13, SARNightLight) (14, SARBuoy));
conv_enum!(ExpendableSurfaceCategory, u8; (0, Other) (2, Flare) (4, ActiveEmitter) (5, PassiveDecoy) (8, SmokeGenerator) (12, CombinedFlareandSmokeGenerator) (14, SARBuoy));
conv_enum!(ExpendableSubsurfaceCategory, u8; (0, Other) (4, Activeemitter) (5, Passivedecoy) (7, Signal) (9, NoiseMakerDecoy) (10, BubbleMakerDecoy) (11, MultiModeDecoy));
conv_enum!(SensorEmitterCategory, u8; (0, Other) (1, Multispectral) (2, RFActive) (3, RFPassive) (4, Optical) (5, ElectroOptical) (6, Seismic) (7, Chemicalpointdetector) (8, Chemicalstandoff) (9, Thermal) (10, AcousticActive) (11, AcousticPassive) (12, ContactPressure) (13, ElectroMagneticRadiation) (14, ParticleRadiation) (15, Magnetic) (16, Gravitational));
conv_enum!(Country, u16; (0, Other) (1, Afghanistan) (2, Albania) (3, Algeria) (4, AmericanSamoa) (5, Andorra) (6, Angola) (7, Anguilla) (8, Antarctica) (9, AntiguaandBarbuda) (10, Argentina) (11, Aruba) (12, AshmoreandCartierIslands) (13, Australia) (14, Austria) (15, Bahamas) (16, Bahrain) (17, BakerIsland) (18, Bangladesh) (19, Barbados) (20, BassasdaIndia) (21, Belgium) (22, Belize) (23, Benin) (24, Bermuda) (25, Bhutan) (26, Bolivia) (27, Botswana) (28, BouvetIsland) (29, Brazil) (30, BritishIndianOceanTerritory) (31, VirginIslandsBritish) (32, BruneiDarussalam) (33, Bulgaria) (34, BurkinaFaso) (35, Myanmar) (36, Burundi) (37, Cambodia) (38, Cameroon) (39, Canada) (40, CaboVerde) (41, CaymanIslands) (42, CentralAfricanRepublic) (43, Chad) (44, Chile) (45, ChinaPeoplesRepublicof) (46, ChristmasIsland) (47, Cocos) (48, Colombia) (49, Comoros) (50, Congo) (51, CookIslands) (52, CoralSeaIslands) (53, CostaRica) (54, Cuba) (55, Cyprus) (56, Czechoslovakia) (57, Denmark) (58, Djibouti) (59, Dominica) (60, DominicanRepublic) (61, Ecuador) (62, Egypt) (63, ElSalvador) (64, EquatorialGuinea) (65, Ethiopia) (66, EuropaIsland) (67, FalklandIslands) (68, FaroeIslands) (69, Fiji) (70, Finland) (71, France) (72, FrenchGuiana) (73, FrenchPolynesia) (74, FrenchSouthernTerritories) (75, Gabon) (76, GambiaThe) (77, GazaStrip) (78, Germany) (79, Ghana) (80, Gibraltar) (81, GloriosoIslands) (82, Greece) (83, Greenland) (84, Grenada) (85, Guadeloupe) (86, Guam) (87, Guatemala) (88, Guernsey) (89, Guinea) (90, GuineaBissau) (91, Guyana) (92, Haiti) (93, HeardIslandandMcDonaldIslands) (94, Honduras) (95, HongKong) (96, HowlandIsland) (97, Hungary) (98, Iceland) (99, India) (100, Indonesia) (101, Iran) (102, Iraq) (104, Ireland) (105, Israel) (106, Italy) (107, CotedIvoire) (108, Jamaica) (109, JanMayen) (110, Japan) (111, JarvisIsland) (112, Jersey) (113, JohnstonAtoll) (114, Jordan) (115, JuandeNovaIsland) (116, Kenya) (117, KingmanReef) (118, Kiribati) (119, KoreaDemocraticPeoplesRepublicOf) (120, KoreaRepublicOf) (121, Kuwait) (122, LaoPeoplesDemocraticRepublic) (123, Lebanon) (124, Lesotho) (125, Liberia) (126, Libya) (127, Liechtenstein) (128, Luxembourg) (129, Madagascar) (130, Macao) (131, Malawi) (132, Malaysia) (133, Maldives) (134, Mali) (135, Malta) (136, IsleofMan) (137, MarshallIslands) (138, Martinique) (139, Mauritania) (140, Mauritius) (141, Mayotte) (142, Mexico) (143, Micronesia) (144, Monaco) (145, Mongolia) (146, Montserrat) (147, Morocco) (148, Mozambique) (149, Namibia) (150, Nauru) (151, NavassaIsland) (152, Nepal) (153, Netherlands) (154, NetherlandsAntilles) (155, NewCaledonia) (156, NewZealand) (157, Nicaragua) (158, Niger) (159, Nigeria) (160, Niue) (161, NorfolkIsland) (162, NorthernMarianaIslands) (163, Norway) (164, Oman) (165, Pakistan) (166, PalmyraAtoll) (168, Panama) (169, PapuaNewGuinea) (170, ParacelIslands) (171, Paraguay) (172, Peru) (173, Philippines) (174, Pitcairn) (175, Poland) (176, Portugal) (177, PuertoRico) (178, Qatar) (179, Reunion) (180, Romania) (181, Rwanda) (182, SaintKittsandNevis) (183, SaintHelenaAscensionandTristandaCunha) (184, SaintLucia) (185, SaintPierreandMiquelon) (186, SaintVincentandtheGrenadines) (187, SanMarino) (188, SaoTomeandPrincipe) (189, SaudiArabia) (190, Senegal) (191, Seychelles) (192, SierraLeone) (193, Singapore) (194, SolomonIslands) (195, Somalia) (196, SouthGeorgiaandtheSouthSandwichIslands) (197, SouthAfrica) (198, Spain) (199, SpratlyIslands) (200, SriLanka) (201, Sudan) (202, Suriname) (203, Svalbard) (204, Eswatini) (205, Sweden) (206, Switzerland) (207, SyrianArabRepublic) (208, TaiwanProvinceofChina) (209, TanzaniaUnitedRepublicof) (210, Thailand) (211, Togo) (212, Tokelau) (213, Tonga) (214, TrinidadandTobago) (215, TromelinIsland) (216, Palau) (217, Tunisia) (218, Turkey) (219, TurksandCaicosIslands) (220, Tuvalu) (221, Uganda) (222, Russia) (223, UnitedArabEmirates) (224, UnitedKingdomofGreatBritainandNorthernIreland) (225, UnitedStatesofAmerica) (226, Uruguay) (227, Vanuatu) (228, HolySee) (229, Venezuela) (230, VietNam) (231, VirginIslandsUS) (232, WakeIsland) (233, WallisandFutuna) (234, WesternSahara) (235, WestBank) (236, Samoa) (237, Yemen) (240, SerbiaandMontenegro_) (241, Zaire) (242, Zambia) (243, Zimbabwe) (244, Armenia) (245, Azerbaijan) (246, Belarus) (247, BosniaandHerzegovina) (248, ClippertonIsland) (249, Croatia) (250, Estonia) (251, Georgia) (252, Kazakhstan) (253, Kyrgyzstan) (254, Latvia) (255, Lithuania) (256, NorthMacedonia) (257, MidwayIslands) (258, Moldova) (259, Montenegro) (260, Russia_) (261, SerbiaAndMontenegro__) (262, Slovenia) (263, Tajikistan) (264, Turkmenistan) (265, Ukraine) (266, Uzbekistan) (267, CzechRepublic) (268, Slovakia) (269, AalandIslands) (270, BonaireSintEustatiusandSaba) (271, CongoDemocraticRepublicOfThe) (272, Curacao) (273, Eritrea) (274, SaintBarthelemy) (275, SaintMartin) (276, Serbia) (277, SintMaarten) (278, SouthSudan) (279, SvalbardandJanMayen) (280, TimorLeste) (281, UnitedStatesMinorOutlyingIslands) (282, PalestineStateof));
conv_enum!(DeadReckoningAlgorithm, u8; (0, Other) (1, StaticNonmovingEntity) (2, DRMConstantVelocityLowAccelerationLinearMotionEntity) (3, DRMConstantVelocityLowAccelerationLinearMotionEntitywithExtrapolationofOrientation) (4, DRMHighSpeedorManeuveringEntitywithExtrapolationofOrientation) (5, DRMHighSpeedorManeuveringEntity) (6, DRMSimilartoFPWexceptinBodyCoordinates) (7, DRMSimilartoRPWexceptinBodyCoordinates) (8, DRMSimilartoRVWexceptinBodyCoordinates) (9, DRMSimilartoFVWexceptinBodyCoordinates));
conv_enum!(EntityMarkingCharacterSet, u8; (0, Unused) (1, ASCII) (2, USArmyMarking) (3, DigitChevron));
conv_enum!(EntityCapabilities, u32; (0, LandPlatformEntityCapabilities) (1, AirPlatformEntityCapabilities) (2, SurfacePlatformEntityCapabilities) (3, SubsurfacePlatformEntityCapabilities) (4, SpacePlatformEntityCapabilities) (5, MunitionEntityCapabilities) (6, LifeFormsEntityCapabilities) (7, EnvironmentalEntityCapabilities) (8, CulturalFeatureEntityCapabilities) (9, SupplyEntityCapabilities) (10, RadioEntityCapabilities) (11, ExpendableEntityCapabilities) (12, SensorEmitterEntityCapabilities));
conv_enum!(VariableParameterRecordType, u8; (0, ArticulatedPart) (1, AttachedPart) (2, Separation) (3, EntityType) (4, EntityAssociation));
conv_enum!(AttachedParts, u32; (0, NothingEmpty) (1, SequentialIDsformodelspecificstations) (512, FuselageStations) (640, LeftwingStations) (768, RightwingStations) (896, M16A42rifle) (897, M249SAW) (898, M60Machinegun) (899, M203GrenadeLauncher) (900, M136AT4) (901, M47Dragon) (902, AAWSMJavelin) (903, M18A1ClaymoreMine) (904, MK19GrenadeLauncher) (905, M2MachineGun));
conv_enum!(ArticulatedPartsTypeMetric, u8; (0, NotSpecified) (1, Position) (2, PositionRate) (3, Extension) (4, ExtensionRate) (5, X) (6, XRate) (7, Y) (8, YRate) (9, Z) (10, ZRate) (11, Azimuth) (12, AzimuthRate) (13, Elevation) (14, ElevationRate) (15, Rotation1) (16, RotationRate));
conv_enum!(ArticulatedPartsTypeClass, u32; (0, NotSpecified) (1024, Rudder) (1056, LeftFlap) (1088, RightFlap) (1120, LeftAileron) (1152, RightAileron) (1184, HelicopterMainRotor) (1216, HelicopterTailRotor) (1248, OtherAircraftControlSurfacesDefinedasNeeded) (1280, PropellerNumber1) (1312, PropellerNumber2) (1344, PropellerNumber3) (1376, PropellerNumber4) (1408, LeftStabilator) (1440, RightStabilator) (1472, LeftRuddervator) (1504, RightRuddervator) (1536, LeftLeadingEdgeFlapSlat) (1568, RightLeadingEdgeFlapSlat) (1600, LeftElevator) (1632, RightElevator) (1664, CanardLeft) (1696, CanardRight) (1728, ElevonInnerLeft) (1760, ElevonInnerRight) (1792, ElevonMiddleLeft) (1824, ElevonMiddleRight) (1856, ElevonOuterLeft) (1888, ElevonOuterRight) (1920, Canopy) (1952, SpoilerLeft) (1984, SpoilerRight) (2048, Periscope) (2080, GenericAntenna) (2112, Snorkel) (2144, OtherExtendiblePartsDefinedasNeeded) (2176, DivePlaneSailLeft) (2208, DivePlaneSailRight) (2240, DivePlaneBowLeft) (2272, DivePlaneBowRight) (2304, DivePlaneSternLeft) (2336, DivePlaneSternRight) (3072, LandingGear) (3104, TailHook) (3136, SpeedBrake) (3168, LeftDoorofPrimaryWeaponBay) (3200, RightDoorofPrimaryWeaponBay) (3232, TankorAPCHatch) (3264, Wingsweep) (3296, BridgeLauncher) (3328, BridgeSection1) (3360, BridgeSection2) (3392, BridgeSection3) (3424, PrimaryBlade1) (3456, PrimaryBlade2) (3488, PrimaryBoom) (3520, PrimaryLauncherArm) (3552, OtherFixedPositionPartsDefinedasNeeded) (3584, LandingGearNose) (3616, LandingGearLeftMain) (3648, LandingGearRightMain) (3680, DoorsofLeftSideWeaponBay) (3712, DoorsofRightSideWeaponBay) (3744, SpotSearchLight1) (3776, SpotSearchLight2) (3808, SpotSearchLight3) (3840, SpotSearchLight4) (3872, LandingLight) (4096, PrimaryTurretNumber1) (4128, PrimaryTurretNumber2) (4160, PrimaryTurretNumber3) (4192, PrimaryTurretNumber4) (4224, PrimaryTurretNumber5) (4256, PrimaryTurretNumber6) (4288, PrimaryTurretNumber7) (4320, PrimaryTurretNumber8) (4352, PrimaryTurretNumber9) (4384, PrimaryTurretNumber10) (4416, PrimaryGunNumber1) (4448, PrimaryGunNumber2) (4480, PrimaryGunNumber3) (4512, PrimaryGunNumber4) (4544, PrimaryGunNumber5) (4576, PrimaryGunNumber6) (4608, PrimaryGunNumber7) (4640, PrimaryGunNumber8) (4672, PrimaryGunNumber9) (4704, PrimaryGunNumber10) (4736, PrimaryLauncher1) (4768, PrimaryLauncher2) (4800, PrimaryLauncher3) (4832, PrimaryLauncher4) (4864, PrimaryLauncher5) (4896, PrimaryLauncher6) (4928, PrimaryLauncher7) (4960, PrimaryLauncher8) (4992, PrimaryLauncher9) (5024, PrimaryLauncher10) (5056, PrimaryDefenseSystems1) (5088, PrimaryDefenseSystems2) (5120, PrimaryDefenseSystems3) (5152, PrimaryDefenseSystems4) (5184, PrimaryDefenseSystems5) (5216, PrimaryDefenseSystems6) (5248, PrimaryDefenseSystems7) (5280, PrimaryDefenseSystems8) (5312, PrimaryDefenseSystems9) (5344, PrimaryDefenseSystems10) (5376, PrimaryRadar1) (5408, PrimaryRadar2) (5440, PrimaryRadar3) (5472, PrimaryRadar4) (5504, PrimaryRadar5) (5536, PrimaryRadar6) (5568, PrimaryRadar7) (5600, PrimaryRadar8) (5632, PrimaryRadar9) (5664, PrimaryRadar10) (5696, SecondaryTurretNumber1) (5728, SecondaryTurretNumber2) (5760, SecondaryTurretNumber3) (5792, SecondaryTurretNumber4) (5824, SecondaryTurretNumber5) (5856, SecondaryTurretNumber6) (5888, SecondaryTurretNumber7) (5920, SecondaryTurretNumber8) (5952, SecondaryTurretNumber9) (5984, SecondaryTurretNumber10) (6016, SecondaryGunNumber1) (6048, SecondaryGunNumber2) (6080, SecondaryGunNumber3) (6112, SecondaryGunNumber4) (6144, SecondaryGunNumber5) (6176, SecondaryGunNumber6) (6208, SecondaryGunNumber7) (6240, SecondaryGunNumber8) (6272, SecondaryGunNumber9) (6304, SecondaryGunNumber10) (6336, SecondaryLauncher1) (6368, SecondaryLauncher2) (6400, SecondaryLauncher3) (6432, SecondaryLauncher4) (6464, SecondaryLauncher5) (6496, SecondaryLauncher6) (6528, SecondaryLauncher7) (6560, SecondaryLauncher8) (6592, SecondaryLauncher9) (6624, SecondaryLauncher10) (6656, SecondaryDefenseSystems1) (6688, SecondaryDefenseSystems2) (6720, SecondaryDefenseSystems3) (6752, SecondaryDefenseSystems4) (6784, SecondaryDefenseSystems5) (6816, SecondaryDefenseSystems6) (6848, SecondaryDefenseSystems7) (6880, SecondaryDefenseSystems8) (6912, SecondaryDefenseSystems9) (6944, SecondaryDefenseSystems10) (6976, SecondaryRadar1) (7008, SecondaryRadar2) (7040, SecondaryRadar3) (7072, SecondaryRadar4) (7104, SecondaryRadar5) (7136, SecondaryRadar6) (7168, SecondaryRadar7) (7200, SecondaryRadar8) (7232, SecondaryRadar9) (7264, SecondaryRadar10) (7296, DeckElevator1) (7328, DeckElevator2) (7360, Catapult1) (7392, Catapult2) (7424, JetBlastDeflector1) (7456, JetBlastDeflector2) (7488, ArrestorWires1) (7520, ArrestorWires2) (7552, ArrestorWires3) (7584, WingFold) (7616, FuselageFold) (7648, MainCargoDoor) (7680, CargoRamp) (7712, AirtoAirRefuelingBoom) (7744, PrimaryAerialRefuelingReceptacleDoor) (7776, SecondaryAerialRefuelingReceptacleDoor) (7808, AerialRefuelingReceptacleLatch) (7840, CargoDoor1) (7872, CargoDoor2) (7904, CargoDoor3) (7936, CargoDoor4) (7968, CargoDoor5) (8000, CargoDoor6) (8032, CargoDoor7) (8064, CargoDoor8) (8096, CargoDoor9) (8128, CargoDoor10) (8160, CentreRefuellingDrogue) (8192, PortRefuellingDrogue) (8224, StarboardRefuellingDrogue) (8256, SubmarineEngineExhaustMast) (8288, SubmarineMast1) (8320, SubmarineMast2) (8352, SubmarineMast3) (8384, SubmarineMast4) (8416, SubmarineMast5) (8448, SubmarineMast6) (8480, SubmarineMast7) (8512, SubmarineMast8) (8544, SubmarineMast9) (8576, SubmarineMast10) (8608, VectoredThrustNozzle) (8640, LeftDooroftheLeftWeaponBay) (8672, RightDooroftheLeftWeaponBay) (8704, LeftDooroftheRightWeaponBay) (8736, RightDooroftheRightWeaponBay) (8768, GunDoor) (8800, CountermeasureDoorLeft) (8832, CountermeasureDoorRight) (8864, HookDoorForward) (8896, HookDoorAft) (8928, LiftFanUpperDoor) (8960, LiftFanLowerDoorLeft) (8992, LiftFanLowerDoorRight) (9024, RefuelProbeDoor) (9056, LeftEngineNacelle) (9088, RightEngineNacelle) (9120, _1stLeftWheel) (9152, _1stRightWheel) (9184, _2ndLeftWheel) (9216, _2ndRightWheel) (9248, _3rdLeftWheel) (9280, _3rdRightWheel) (9312, _4thLeftWheel) (9344, _4thRightWheel) (9376, _5thLeftWheel) (9408, _5thRightWheel) (9440, _6thLeftWheel) (9472, _6thRightWheel) (9504, _7thLeftWheel) (9536, _7thRightWheel) (9568, _8thLeftWheel) (9600, _8thRightWheel) (9632, _9thLeftWheel) (9664, _9thRightWheel) (9696, _10thLeftWheel) (9728, _10thRightWheel) (9760, RefuelingProbe) (9792, SteeringWheel) (9824, CraneBody) (9856, CraneArm1) (9888, CraneArm2) (9920, CraneArm3) (9952, CraneBoom) (9984, CraneHook) (10016, Trailer) (10048, RollerLeft) (10080, RollerRight) (10112, PrimaryGunRecoil) (10144, SecondaryGunRecoil));
conv_enum!(MunitionDescriptorWarhead, u16; (0, Other) (10, Cargo) (20, FuelAirExplosive) (30, GlassBeads) (31, _1um) (32, _5um) (33, _10um) (1000, HighExplosive) (1100, HEPlastic) (1200, HEIncendiary) (1300, HEFragmentation) (1400, HEAntiTank) (1500, HEBomblets) (1600, HEShapedCharge) (1610, HEContinuousRod) (1615, HETungstenBall) (1620, HEBlastFragmentation) (1625, HESteerableDartswithHE) (1630, HEDarts) (1635, HEFlechettes) (1640, HEDirectedFragmentation) (1645, HESemiArmorPiercing) (1650, HEShapedChargeFragmentation) (1655, HESemiArmorPiercingFragmentation) (1660, HEHollowCharge) (1665, HEDoubleHollowCharge) (1670, HEGeneralPurpose) (1675, HEBlastPenetrator) (1680, HERodPenetrator) (1685, HEAntiPersonnel) (1690, HEShapedChargeFragmentationIncendiary) (1695, HEPenetratorBlastFragmentation) (2000, Smoke) (2005, WP) (2010, FOGO) (2015, HC) (3000, Illumination) (4000, Practice) (4001, Blank) (4002, Dummy) (5000, Kinetic) (6000, Mines) (7000, Nuclear) (7010, NuclearIMT) (7011, NuclearVariousYields) (8000, ChemicalGeneral) (8100, ChemicalBlisterAgent) (8110, HD) (8115, ThickenedHD) (8120, DustyHD) (8125, L) (8130, HN3) (8135, HL) (8140, CX) (8145, DMMP) (8150, DMHP) (8155, DMA) (8160, DEM) (8165, PX) (8200, ChemicalBloodAgent) (8210, AC) (8215, CK) (8220, CG) (8300, ChemicalNerveAgent) (8310, VX) (8315, ThickenedVX) (8320, DustyVX) (8325, GA) (8330, ThickenedGA) (8335, DustyGA) (8340, GB) (8345, ThickenedGB) (8350, DustyGB) (8355, GD) (8360, ThickenedGD) (8365, DustyGD) (8370, GF) (8375, ThickenedGF) (8380, DustyGF) (8385, SVX) (8410, BIS) (8415, TCP) (8425, MS) (8430, TEP) (8445, H2O) (8450, TO1) (8455, TO2) (8460, TO3) (8465, SulfurHexafluoride) (8470, AA) (8475, HF) (9000, Biological) (9100, BiologicalVirus) (9200, BiologicalBacteria) (9300, BiologicalRickettsia) (9400, BiologicalGeneticallyModifiedMicroorganisms) (9500, BiologicalToxin));
conv_enum!(MunitionDescriptorFuse, u16; (0, Other) (10, IntelligentInfluence) (20, Sensor) (30, Selfdestruct) (40, UltraQuick) (50, Body) (60, DeepIntrusion) (100, Multifunction) (200, PointDetonation) (300, BaseDetonation) (1000, Contact) (1100, ContactInstant) (1200, ContactDelayed) (1201, _10msDelay) (1202, _20msDelay) (1205, _50msDelay) (1206, _60msDelay) (1210, _100msDelay) (1212, _125msDelay) (1225, _250msDelay) (1250, _5msDelay) (1251, _15msDelay) (1252, _25msDelay) (1253, _30msDelay) (1254, _35msDelay) (1255, _40msDelay) (1256, _45msDelay) (1257, _90msDelay) (1258, _120msDelay) (1259, _180msDelay) (1260, _240msDelay) (1300, ContactElectronic) (1400, ContactGraze) (1500, ContactCrush) (1600, ContactHydrostatic) (1700, ContactMechanical) (1800, ContactChemical) (1900, ContactPiezoelectric) (1910, ContactPointInitiating) (1920, ContactPointInitiatingBaseDetonating) (1930, ContactBaseDetonating) (1940, ContactBallisticCapandBase) (1950, ContactBase) (1960, ContactNose) (1970, ContactFittedinStandoffProbe) (1980, ContactNonaligned) (2000, Timed) (2100, TimedProgrammable) (2200, TimedBurnout) (2300, TimedPyrotechnic) (2400, TimedElectronic) (2500, TimedBaseDelay) (2600, TimedReinforcedNoseImpactDelay) (2700, TimedShortDelayImpact) (2701, _10msDelay2) (2702, _20msDelay2) (2705, _50msDelay2) (2706, _60msDelay2) (2710, _100msDelay2) (2712, _125msDelay2) (2725, _250msDelay2) (2800, TimedNoseMountedVariableDelay) (2900, TimedLongDelaySide) (2910, TimedSelectableDelay) (2920, TimedImpact) (2930, TimedSequence) (3000, Proximity) (3100, ProximityActiveLaser) (3200, ProximityMagnetic) (3300, ProximityActiveRadar) (3400, ProximityRadioFrequency) (3500, ProximityProgrammable) (3600, ProximityProgrammablePrefragmented) (3700, ProximityInfrared) (4000, Command) (4100, CommandElectronicRemotelySet) (5000, Altitude1) (5100, AltitudeRadioAltimeter) (5200, AltitudeAirBurst) (6000, Depth) (7000, Acoustic) (8000, Pressure) (8010, PressureDelay) (8100, Inert) (8110, Dummy) (8120, Practice) (8130, PlugRepresenting) (8150, Training) (9000, Pyrotechnic) (9010, PyrotechnicDelay) (9100, Electrooptical) (9110, Electromechanical) (9120, ElectromechanicalNose) (9200, Strikerless) (9210, StrikerlessNoseImpact) (9220, StrikerlessCompressionIgnition) (9300, CompressionIgnition) (9310, CompressionIgnitionStrikerlessNoseImpact) (9400, Percussion) (9410, PercussionInstantaneous) (9500, Electronic) (9510, ElectronicInternallyMounted) (9520, ElectronicRangeSetting) (9530, ElectronicProgrammed) (9600, Mechanical) (9610, MechanicalNose) (9620, MechanicalTail));
conv_enum!(DetonationResult, u8; (0, Other) (1, EntityImpact) (2, EntityProximateDetonation) (3, GroundImpact) (4, GroundProximateDetonation) (5, Detonation) (6, NoneorNoDetonation) (7, HEhitsmall) (8, HEhitmedium) (9, HEhitlarge) (10, Armorpiercinghit) (11, Dirtblastsmall) (12, Dirtblastmedium) (13, Dirtblastlarge) (14, Waterblastsmall) (15, Waterblastmedium) (16, Waterblastlarge) (17, Airhit) (18, Buildinghitsmall) (19, Buildinghitmedium) (20, Buildinghitlarge) (21, Mineclearinglinecharge) (22, Environmentobjectimpact) (23, Environmentobjectproximatedetonation) (24, WaterImpact) (25, AirBurst) (26, Killwithfragmenttype1) (27, Killwithfragmenttype2) (28, Killwithfragmenttype3) (29, Killwithfragmenttype1afterflyoutfailure) (30, Killwithfragmenttype2afterflyoutfailure) (31, Missduetoflyoutfailure) (32, Missduetoendgamefailure) (33, Missduetoflyoutandendgamefailure));
conv_enum!(ServiceRequestServiceTypeRequested, u8; (0, Other) (1, Resupply) (2, Repair) (3, AerialRefuelingHighFidelity) (4, AerialRefuelingLowFidelity));
conv_enum!(RepairCompleteRepair, u16; (0, NoRepairsPerformed) (1, AllRequestedrepairSperformed) (10, MotorEngine) (20, Starter) (30, Alternator) (40, Generator) (50, Battery) (60, EngineCoolantLeak) (70, FuelFilter) (80, TransmissionOilLeak) (90, EngineOilLeak) (100, Pumps) (110, DriveTrainFilters) (120, Transmission) (130, Brakes) (140, SuspensionSystem) (150, OilFilter) (1000, Hull) (1010, Airframe) (1020, TruckBody) (1030, TankBody) (1040, TrailerBody) (1050, Turret) (1500, Propeller) (1520, EnvironmentFilters) (1540, Wheels) (1550, Tire) (1560, Track) (2000, GunElevationDrive) (2010, GunStabilizationSystem) (2020, GunnersPrimarySight) (2030, CommandersExtensionToTheGPS) (2040, LoadingMechanism) (2050, GunnersAuxiliarySight) (2060, GunnersControlPanel) (2070, GunnersControlAssemblyHandle) (2090, CommandersControlHandlesAssembly) (2100, CommandersWeaponStation) (2110, CommandersIndependentThermalViewer) (2120, GeneralWeapons) (4000, FuelTransferPump) (4010, FuelLines) (4020, Gauges) (4030, GeneralFuelSystem) (4500, ElectronicWarfareSystems) (4600, DetectionSystems) (4610, DetectionSystemsRadioFrequency) (4620, DetectionSystemsMicrowave) (4630, DetectionSystemsInfrared) (4640, DetectionSystemsLaser) (4700, RangeFinders) (4710, RangeOnlyrAdar) (4720, LaserRangeFinder) (4800, ElectronicSystems) (4810, ElectronicsSystemsRadioFrequency) (4820, ElectronicsSystemsMicrowave) (4830, ElectronicsSystemsInfrared) (4840, ElectronicsSystemsLaser) (5000, Radios) (5010, CommunicationSystems) (5100, Intercoms) (5200, Encoders) (5250, EncryptionDevices) (5300, Decoders) (5350, DecryptionDevices) (5500, Computers) (6000, NavigationAndControlSystems) (6500, FireControlSystems) (8000, AirSupply) (8010, LifeSupportSystemsFilters) (8020, WaterSupply) (8030, RefrigerationSystem) (8040, ChemicalBiologicalAndRadiologicalProtection) (8050, WaterWashdownSystems) (8060, DecontaminationSystems) (9000, Watersupply) (9010, Coolingsystem) (9020, Winches) (9030, Catapults) (9040, Cranes) (9050, Launchers) (10000, Lifeboats) (10010, Landingcraft) (10020, Ejectionseats));
conv_enum!(RepairResponseRepairResult, u8; (0, Other) (1, RepairEnded) (2, InvalidRepair) (3, RepairInterrupted) (4, ServiceCanceledByTheSupplier));
conv_enum!(VariableRecordTypes, u32; (1, EntityIDList) (1001, DDCPJoinTransactionJoinRequestMessage) (1002, DDCPSetPlaybackWindowTransactionSetPlaybackWindowRequestMessage) (1003, DDCPLoadMissionRecordingTransactionLoadMissionRecordingRequestMessage) (1004, DDCPCueTransactionCueRequestMessage) (1005, DDCPPlayTransactionPlayRequestMessage) (1006, DDCPStopTransactionStopRequestMessage) (1007, DDCPPauseTransactionPauseRequestMessage) (1009, DDCPEndTransactionEndRequestMessage) (1051, DDCPJoinResponseMessage) (1052, DDCPRequestReceiptMessage) (1053, DDCPPlaybackWindowConfirmedMessage) (1054, DDCPMissionRecordingLoadedMessage) (1055, DDCPCueConfirmedMessage) (1056, DDCPTimetoCompleteMessage) (1057, DDCPPlayCommencedMessage) (1058, DDCPStopConfirmedMessage) (1059, DDCPPauseConfirmedMessage) (1061, DDCPEndResponseMessage) (1111, DDCPMasterAnnounceMessage) (1112, DDCPDeviceAnnounceMessage) (1114, DDCPDeviceExitMessage) (1115, DDCPDeviceHeartbeatMessage) (1116, DDCPMasterTimeSyncMessage) (1118, DDCPErrorMessage) (1119, DDCPMasterStopSyncMessage) (1120, DDCPMasterTransitionMessage) (1200, MissionTime) (3000, HighFidelityHAVEQUICKSATURNRadio) (3500, BlankingSectorattributerecord) (3501, AngleDeceptionattributerecord) (3502, FalseTargetsattributerecord) (4000, DEPrecisionAimpointrecord) (4001, DEAreaAimpointrecord) (4500, DirectedEnergyDamageDescriptionrecord) (5000, CryptoControl) (5001, Mode5STransponderLocation) (5002, Mode5STransponderLocationError) (5003, SquitterAirbornePositionReport) (5004, SquitterAirborneVelocityReport) (5005, SquitterSurfacePositionReport) (5006, SquitterIdentificationReport) (5007, GICB) (5008, SquitterEventDrivenReport) (5009, AntennaLocation) (5010, BasicInteractive) (5011, InteractiveMode4Reply) (5012, InteractiveMode5Reply) (5013, InteractiveBasicMode5) (5014, InteractiveBasicModeS) (5500, IOEffect) (5501, IOCommunicationsNode) (10000, Identification1) (10010, TrainerInitialConditionsFilename) (10020, Increment3_1MissionDataLoadName) (10030, Increment2MissionDataLoadName) (10110, SetMarkpointCommand) (10115, MarkpointID) (10140, ReactionLevel) (10150, WeaponReload) (10157, CESEntitySetClearStatus) (10160, ActivateEntity) (10170, DisengageReengage1) (10190, FuelFreeze) (10250, FireLaunchDispense) (10254, TargetAssignment) (10256, CICEnable) (10258, ShootInhibit) (10259, Posture) (10262, JammerState) (10263, JammerType) (10264, DynamicTargeting) (10267, ManualJammingOnOverride) (10268, SOJAxis) (10280, EmitterOverride1) (10290, Shields1) (10300, CrashOverride) (10306, StopBuzzer) (10307, TargetLasingOnOff) (10308, TargetLasingLaserCode) (10310, PowerPlant) (10311, TacticalLightingOnOffControlLightControl) (10312, TacticalLightingBlinkerControlBlinkerValue) (10313, TacticalLightingOnOffControlLightControlType) (10314, ParkVehicle) (10315, SignalingOnOff) (10316, SignalingDevice) (10400, OwnshipID) (10600, StateChange) (11000, EntityType1) (11100, Concatenated) (11110, Kind) (11120, Domain) (11130, Country) (11140, Category) (11150, Subcategory) (11160, Specific) (11170, Extra) (11180, ForceID1) (11200, ForceID2) (11300, Description) (11500, TankerBoomControl) (11501, AirportLights) (11502, WeatherPost) (11503, LocalizerandGlideSlope) (11504, TACANNavAids) (12000, AlternativeEntityType1) (12110, Kind2) (12120, Domain2) (12130, Country2) (12140, Category2) (12150, Subcategory2) (12160, Specific2) (12170, Extra2) (12300, Description2) (13000, EntityMarking) (13100, EntityMarkingCharacters) (13200, CrewID) (14000, TaskOrganization) (14200, RegimentName) (14300, BattalionName) (14400, CompanyName) (14500, PlatoonName) (14520, SquadName) (14540, TeamName) (14600, BumperNumber) (14700, VehicleNumber) (14800, UnitNumber) (15000, DISIdentity) (15100, DISSiteID) (15200, DISHostID) (15300, DISEntityID) (15400, MountIntent) (15500, TetherUnthetherCommandID) (15510, TeleportEntityDataRecord) (15600, DISAggregateID) (15800, OwnershipStatus) (19177, Reconstitute) (20000, Loads) (21000, CrewMembers) (21100, CrewMemberID) (21200, Health) (21300, JobAssignment) (23000, Fuel) (23100, Quantity1) (23105, Quantity2) (24000, Ammunition) (24001, _120mmHEATquantity) (24002, _120mmSABOTquantity) (24003, _12_7mmM8quantity) (24004, _12_7mmM20quantity) (24005, _7_62mmM62quantity) (24006, M250UKL8A1quantity) (24007, M250UKL8A3quantity) (24008, _7_62mmM80quantity) (24009, _12_7mmquantity) (24010, _7_62mmquantity) (24060, Minesquantity) (24100, Type) (24110, Kind3) (24120, Domain3) (24130, Country3) (24140, Category3) (24150, Subcategory3) (24160, Extra3) (24300, Description3) (25000, Cargo) (26000, VehicleMass) (27000, SupplyQuantity) (28000, Armament) (30000, Status) (30010, Activateentity) (30100, SubscriptionState) (30300, Roundtriptimedelay) (30400, TADILJmessagecountLabel0) (30401, TADILJmessagecountLabel1) (30402, TADILJmessagecountLabel2) (30403, TADILJmessagecountLabel3) (30404, TADILJmessagecountLabel4) (30405, TADILJmessagecountLabel5) (30406, TADILJmessagecountLabel6) (30407, TADILJmessagecountLabel7) (30408, TADILJmessagecountLabel8) (30409, TADILJmessagecountLabel9) (30410, TADILJmessagecountLabel10) (30411, TADILJmessagecountLabel11) (30412, TADILJmessagecountLabel12) (30413, TADILJmessagecountLabel13) (30414, TADILJmessagecountLabel14) (30415, TADILJmessagecountLabel15) (30416, TADILJmessagecountLabel16) (30417, TADILJmessagecountLabel17) (30418, TADILJmessagecountLabel18) (30419, TADILJmessagecountLabel19) (30420, TADILJmessagecountLabel20) (30421, TADILJmessagecountLabel21) (30422, TADILJmessagecountLabel22) (30423, TADILJmessagecountLabel23) (30424, TADILJmessagecountLabel24) (30425, TADILJmessagecountLabel25) (30426, TADILJmessagecountLabel26) (30427, TADILJmessagecountLabel27) (30428, TADILJmessagecountLabel28) (30429, TADILJmessagecountLabel29) (30430, TADILJmessagecountLabel30) (30431, TADILJmessagecountLabel31) (31000, Position) (31010, Routetype) (31100, MilGrid10) (31200, GeocentricCoordinates) (31210, X) (31220, Y) (31230, Z) (31300, Latitude1) (31400, Longitude1) (31500, LineofSight) (31510, X1) (31520, Y1) (31530, Z1) (31600, Altitude2) (31700, DestinationLatitude) (31800, DestinationLongitude) (31900, DestinationAltitude) (32000, Orientation) (32100, HullHeadingAngle) (32200, HullPitchAngle) (32300, RollAngle) (32500, X2) (32600, Y2) (32700, Z2) (33000, Appearance) (33100, AmbientLighting) (33101, Lights1) (33200, PaintScheme) (33300, Smoke) (33400, TrailingEffects) (33500, Flaming) (33600, Marking) (33710, MinePlowsAttached) (33720, MineRollersAttached) (33730, TankTurretAzimuth) (34000, FailuresandMalfunctions) (34100, Age) (34110, Kilometers) (35000, Damage) (35050, Cause) (35100, MobilityKill1) (35200, FirePowerKill) (35300, PersonnelCasualties) (36000, Velocity) (36100, Xvelocity) (36200, Yvelocity) (36300, Zvelocity) (36400, Speed1) (37000, Acceleration) (37100, Xacceleration) (37200, Yacceleration) (37300, Zacceleration) (38100, EngineStatus) (39000, PrimaryTargetLine) (40000, Exercise) (40010, ExerciseState) (40015, RestartRefresh) (40020, AFATDSFileName) (41000, TerrainDatabase) (42000, Missions) (42100, MissionID) (42200, MissionType) (42300, MissionRequestTimeStamp) (43000, ExerciseDescription) (43100, Name) (43200, Entities) (43300, Version) (43410, GuiseMode) (43420, SimulationApplicationActiveStatus) (43430, SimulationApplicationRoleRecord) (43440, SimulationApplicationState) (44000, VisualOutputMode) (44100, SimulationManagerRole) (44110, SimulationManagerSiteID) (44120, SimulationManagerApplicID) (44130, SimulationManagerEntityID) (44140, SimulationManagerActiveStatus) (44200, AfterActiveReviewRole) (44210, AfterActiveReviewSiteID) (44220, AfterActiveApplicID) (44230, AfterActiveReviewEntityID) (44240, AfterActiveReviewActiveStatus) (44300, ExerciseLoggerRole) (44310, ExerciseLoggerSiteID) (44320, ExerciseLoggerApplicID) (44330, ExerciseEntityID) (44340, ExerciseLoggerActiveStatus) (44400, SyntheticEnvironmentManagerRole) (44410, SyntheticEnvironmentManagerSiteID) (44420, SyntheticEnvironmentManagerApplicID) (44430, SyntheticEnvironmentManagerEntityID) (44440, SyntheticEnvironmentManagerActiveStatus) (44500, SIMNETDISTranslatorRole) (44510, SIMNETDISTranslatorSiteID) (44520, SIMNETDISTranslatorApplicID) (44530, SIMNETDISTranslatorEntityID) (44540, SIMNETDISTranslatorActiveStatus) (45000, ApplicationRate) (45005, ApplicationTime) (45010, ApplicationTimestep) (45020, FeedbackTime) (45030, SimulationRate) (45040, SimulationTime) (45050, SimulationTimestep) (45060, TimeInterval) (45070, TimeLatency) (45080, TimeScheme) (46000, ExerciseElapsedTime) (46010, ElapsedTime) (50000, Environment) (50103, ScenarioDate) (50106, TimeDateValid) (50118, ScenarioTime) (50120, SnowEnableDisable) (50124, WeatherAttributesRequest) (50126, METHeartbeatMessage) (50600, ContrailsEnable) (50700, ContrailAltitudes) (51000, Weather1) (51010, WeatherCondition) (51100, ThermalCondition) (51110, ThermalVisibility1) (51111, ThermalVisibility2) (52000, Time1) (52001, Time2) (52100, TimeofDayDiscrete) (52200, TimeofDayContinuous) (52300, TimeMode) (52305, TimeScene) (52310, CurrentHour) (52320, CurrentMinute) (52330, CurrentSecond) (52340, Azimuth1) (52350, MaximumElevation) (52360, TimeZone) (52370, TimeRate) (52380, TheNumberOfSimulationSecondsSinceTheStartOfTheExercise) (52400, TimeSunriseEnabled) (52410, SunriseHour) (52420, SunriseMinute) (52430, SunriseSecond) (52440, SunriseAzimuth) (52500, TimeSunsetEnabled) (52510, SunsetHour1) (52511, SunsetHour2) (52520, SunsetMinute) (52530, SunsetSecond) (52600, Date1) (52601, DateEuropean) (52602, DateUS) (52610, Month) (52620, Day) (52630, Year) (53000, Clouds) (53050, CloudLayerEnable) (53060, CloudLayerSelection) (53100, Visibility) (53200, BaseAltitude1) (53250, BaseAltitude2) (53300, Ceiling1) (53350, Ceiling2) (53400, Characteristics) (53410, ConcentrationLength) (53420, Transmittance) (53430, Radiance) (54000, Precipitation) (54100, Rain) (55000, Fog) (55100, Visibility1) (55101, Visibility2) (55105, Visibility3) (55200, Density1) (55300, Base) (55401, ViewLayerfromabove_) (55410, TransitionRange) (55420, Bottom1) (55425, Bottom2) (55430, Ceiling3) (55435, Ceiling4) (56000, HeavenlyBodies) (56100, Sun) (56105, SunVisible) (56110, Position1) (56111, SunPositionElevationDegrees) (56120, PositionAzimuth1) (56121, SunPositionAzimuthDegrees) (56130, PositionElevation1) (56140, PositionIntensity1) (56200, Moon) (56205, MoonVisible) (56210, Position2) (56220, PositionAzimuth2) (56221, MoonPositionAzimuthDegrees) (56230, PositionElevation2) (56231, MoonPositionElevationDegrees) (56240, PositionIntensity2) (56310, Horizon) (56320, HorizonAzimuth) (56330, HorizonElevation) (56340, HorizonHeading) (56350, HorizonIntensity) (57200, Humidity) (57300, Visibility4) (57400, Winds) (57410, Speed2) (57411, WindSpeedKnots) (57420, WindDirection1) (57421, WindDirectionDegrees) (57500, Rainsoak) (57610, TideSpeed) (57611, TideSpeedKnots) (57620, TideDirection) (57621, TideDirectionDegrees) (58000, Haze) (58100, Visibility5) (58105, Visibility6) (58200, Density2) (58430, Ceiling5) (58435, Ceiling6) (59000, ContaminantsandObscurants) (59100, ContaminantObscurantType) (59110, Persistence) (59115, ChemicalDosage) (59120, ChemicalAirConcentration) (59125, ChemicalGroundDeposition) (59130, ChemicalMaximumGroundDeposition) (59135, ChemicalDosageThreshold) (59140, BiologicalDosage) (59145, BiologicalAirConcentration) (59150, BiologicalDosageThreshold) (59155, BiologicalBinnedParticleCount) (59160, RadiologicalDosage) (60000, Communications) (61005, FireBottleReload) (61100, ChannelType1) (61101, ChannelType2) (61200, ChannelIdentification) (61300, AlphaIdentification) (61400, RadioIdentification) (61500, LandLineIdentification) (61600, IntercomIdentification) (61700, GroupNetworkChannelNumber) (62100, RadioCommunicationsStatus) (62101, BoomInterphone) (62200, StationaryRadioTransmittersDefaultTime) (62300, MovingRadioTransmittersDefaultTime) (62400, StationaryRadioSignalsDefaultTime) (62500, MovingRadioSignalDefaultTime) (63101, RadioInitializationTransecSecurityKey) (63102, RadioInitializationInternalNoiseLevel) (63103, RadioInitializationSquelchThreshold) (63104, RadioInitializationAntennaLocation) (63105, RadioInitializationAntennaPatternType) (63106, RadioInitializationAntennaPatternLength) (63107, RadioInitializationBeamDefinition) (63108, RadioInitializationTransmitHeartbeatTime) (63109, RadioInitializationTransmitDistanceThresholdVariableRecord) (63110, RadioChannelInitializationLockoutID) (63111, RadioChannelInitializationHopsetID) (63112, RadioChannelInitializationPresetFrequency) (63113, RadioChannelInitializationFrequencySyncTime) (63114, RadioChannelInitializationComsecKey) (63115, RadioChannelInitializationAlpha) (70000, AlgorithmParameters) (71000, DeadReckoningAlgorithm1) (71100, DRALocationThreshold) (71200, DRAOrientationThreshold) (71300, DRATimeThreshold) (72000, SimulationManagementParameters) (72100, CheckpointInterval) (72600, TransmitterTimeThreshold) (72700, ReceiverTimeThreshold) (73000, InteroperabilityMode) (74000, SIMNETDataCollection) (75000, EventID) (75100, SourceSiteID) (75200, SourceHostID) (90000, ArticulatedParts) (90050, PartID) (90070, Index) (90100, Position3) (90200, PositionRate) (90300, Extension) (90400, ExtensionRate) (90500, X3) (90600, Xrate) (90700, Y3) (90800, Yrate) (90900, Z3) (91000, Zrate) (91100, Azimuth2) (91200, AzimuthRate) (91300, Elevation) (91400, ElevationRate) (91500, Rotation2) (91600, RotationRate) (100001, DRAAngularXVelocity) (100002, DRAAngularYVelocity) (100003, DRAAngularZVelocity) (100004, AppearanceTrailingEffects) (100005, AppearanceHatch) (100008, AppearanceCharacterSet) (100010, CapabilityAmmunitionSupplier) (100011, CapabilityMiscellaneousSupplier) (100012, CapabilityRepairProvider) (100014, ArticulationParameter) (100047, ArticulationParameterType1) (100048, ArticulationParameterValue1) (100058, TimeofDayScene) (100061, LatitudeNorth) (100063, LongitudeEast) (100068, TacticalDriverStatus) (100100, SonarSystemStatus) (100160, Accomplishedaccept) (100161, Upperlatitude) (100162, LatitudeSouth) (100163, Westernlongitude) (100164, LongitudeWest) (100165, CDROMNumber) (100166, DTEDdiskID) (100167, Altitude3) (100169, TacticalSystemStatus) (100170, JTIDSStatus) (100171, TADILJStatus) (100172, DSDDStatus) (100200, WeaponSystemStatus) (100205, Subsystemstatus) (100206, Numberofinterceptorsfired) (100207, Numberofinterceptordetonations) (100208, Numberofmessagebuffersdropped) (100213, Satellitesensorbackground1) (100214, Satellitesensorbackground2) (100218, ScriptNumber) (100300, EntityTrackUpdateData) (100400, LocalForceTraining) (100500, EntityTrackIdentityData) (100510, EntityforTrackEvent) (100520, IFFstatus) (100600, EngagementData) (100610, TargetLatitude) (100620, TargetLongitude) (100631, AreaofInterestCenterLatitude) (100632, AreaofInterestCenterLongitude) (100633, AreaofInterestRadius) (100634, AreaofInterestType) (100640, TargetAggregateID) (100650, GICIdentificationNumber) (100660, EstimatedTimeofFlighttoTBMImpact) (100661, EstimatedInterceptTime) (100662, EstimatedTimeofFlighttoNextWaypoint) (100700, EntityTrackEquipmentData) (100800, EmissionEWData) (100900, AppearanceData) (101000, CommandOrderData) (101100, EnvironmentalData) (101200, SignificantEventData) (101300, OperatorActionData) (101310, ADAEngagementMode) (101320, ADAShootingStatus) (101321, ADAMode) (101330, ADARadarStatus) (101340, ShootCommand) (101350, ADAWeaponStatus) (101360, ADAFiringDisciple) (101370, OrderStatus) (101400, TimeSynchronization) (101500, TomahawkData) (102100, NumberofDetonations) (102200, NumberofIntercepts) (200201, OBTControlMT201) (200202, SensorDataMT202) (200203, EnvironmentalDataMT203) (200204, OwnshipDataMT204) (200205, AcousticContactDataMT205) (200207, SonobuoyDataMT207) (200210, SonobuoyContactDataMT210) (200211, HeloControlMT211) (200213, ESMControlData) (200214, ESMContactDataMT214) (200215, ESMEmitterDataMT215) (200216, WeaponDefinitionDataMT217) (200217, WeaponPresetDataMT217) (200301, OBTControlMT301) (200302, SensorDataMT302) (200303, EnvironmentalDataMT303m) (200304, OwnshipDataMT304) (200305, AcousticContactDataMT305) (200307, SonobuoyDataMT307) (200310, SonobuoyContactDataMT310) (200311, HeloScenarioEquipmentStatus) (200313, ESMControlDataMT313) (200314, ESMContactDataMT314) (200315, ESMEmitterDataMT315) (200316, WeaponDefinitionDataMT316) (200317, WeaponPresetDataMT317) (200400, PairingAssociation) (200401, Pointer) (200402, ReportingResponsibility) (200403, TrackNumber) (200404, IDforLink11Reporting) (200405, RemoteTrack) (200406, Link11ErrorRate) (200407, TrackQuality) (200408, Gridlock) (200409, Kill) (200410, TrackIDChangeResolution) (200411, WeaponsStatus) (200412, Link11Operator) (200413, ForceTrainingTransmit) (200414, ForceTrainingReceive) (200415, InterceptorAmplification1) (200416, Consumables1) (200417, Link11LocalTrackQuality) (200418, DLRP) (200419, ForceOrder) (200420, WilcoCantco) (200421, EMCBearing) (200422, ChangeTrackEligibility) (200423, LandMassReferencePoint) (200424, SystemReferencePoint) (200425, PUAmplification) (200426, SetDrift) (200427, BeginInitialization) (200428, StatusandControl) (200429, ScintillationChange) (200430, Link11IDControl) (200431, PUGuardList) (200432, WindsAloft) (200433, SurfaceWinds) (200434, SeaState) (200435, MagneticVariation) (200436, TrackEligibility) (200437, TrainingTrackNotification) (200501, TacanData) (200502, InterceptorAmplification2) (200503, TacanAssignment) (200504, AutopilotStatus) (200505, Consumables2) (200506, Downlink) (200507, TINReport) (200508, SpecialPointControl) (200509, ControlDiscretes) (200510, RequestTargetDiscretes) (200511, TargetDiscretes) (200512, ReplyDiscretes) (200513, CommandManeuvers) (200514, TargetData) (200515, TargetPointer) (200516, InterceptData) (200517, DecrementMissileInventory) (200518, Link4AAlert) (200519, StrikeControl) (200521, SpeedChange) (200522, CourseChange) (200523, AltitudeChange) (200524, ACLSANSPN46Status) (200525, ACLSAircraftReport) (200600, SPS67RadarOperatorFunctions) (200601, SPS55RadarOperatorFunctions) (200602, SPQ9ARadarOperatorFunctions) (200603, SPS49RadarOperatorFunctions) (200604, MK23RadarOperatorFunctions) (200605, SPS48RadarOperatorFunctions) (200606, SPS40RadarOperatorFunctions) (200607, MK95RadarOperatorFunctions) (200608, KillNoKill) (200609, CMTpc) (200610, CMC4AirGlobalData) (200611, CMC4GlobalData) (200612, LINKSIMCOMMENTPDU) (200613, NSSTOwnshipControl) (240000, Other) (240001, MassOfTheVehicle) (240002, ForceID3) (240003, EntityTypeKind) (240004, EntityTypeDomain) (240005, EntityTypeCountry) (240006, EntityTypeCategory) (240007, EntityTypeSubCategory) (240008, EntityTypeSpecific) (240009, EntityTypeExtra) (240010, AlternativeEntityTypeKind) (240011, AlternativeEntityTypeDomain) (240012, AlternativeEntityTypeCountry) (240013, AlternativeEntityTypeCategory) (240014, AlternativeEntityTypeSubCategory) (240015, AlternativeEntityTypeSpecific) (240016, AlternativeEntityTypeExtra) (240017, EntityLocationX) (240018, EntityLocationY) (240019, EntityLocationZ) (240020, EntityLinearVelocityX) (240021, EntityLinearVelocityY) (240022, EntityLinearVelocityZ) (240023, EntityOrientationPsi) (240024, EntityOrientationTheta) (240025, EntityOrientationPhi) (240026, DeadReckoningAlgorithm2) (240027, DeadReckoningLinearAccelerationX) (240028, DeadReckoningLinearAccelerationY) (240029, DeadReckoningLinearAccelerationZ) (240030, DeadReckoningAngularVelocityX) (240031, DeadReckoningAngularVelocityY) (240032, DeadReckoningAngularVelocityZ) (240033, EntityAppearance) (240034, EntityMarkingCharacterSet) (240035, EntityMarking11Bytes) (240036, Capability) (240037, NumberArticulationParameters) (240038, ArticulationParameterID) (240039, ArticulationParameterType2) (240040, ArticulationParameterValue2) (240041, TypeOfStores) (240042, QuantityOfStores) (240043, FuelQuantity) (240044, RadarSystemStatus) (240045, RadioCommunicationSystemStatus) (240046, DefaultTimeForRadioTransmissionForStationaryTransmitters) (240047, DefaultTimeForRadioTransmissionForMovingTransmitters) (240048, BodyPartDamagedRatio) (240049, NameOfTheTerrainDatabaseFile) (240050, NameOfLocalFile) (240051, AimpointBearing) (240052, AimpointElevation) (240053, AimpointRange) (240054, AirSpeed) (240055, Altitude) (240056, ApplicationStatus) (240057, AutoIff) (240058, BeaconDelay) (240059, BingoFuelSetting) (240060, CloudBottom) (240061, CloudTop) (240062, Direction) (240063, EndAction) (240064, Frequency) (240065, Freeze) (240066, Heading) (240067, Identification2) (240068, InitialPointData) (240069, Latitude2) (240070, Lights2) (240071, Linear) (240072, Longitude2) (240073, LowAltitude) (240074, MfdFormats) (240075, Nctr) (240076, NumberProjectiles) (240077, OperationCode) (240078, Pitch) (240079, Profiles) (240080, Quantity3) (240081, RadarModes) (240082, RadarSearchVolume) (240083, Roll) (240084, Rotation) (240085, ScaleFactorX) (240086, ScaleFactorY) (240087, Shields2) (240088, Steerpoint) (240089, Spare1) (240090, Spare2) (240091, Team) (240092, Text) (240093, TimeOfDay) (240094, TrailFlag) (240095, TrailSize) (240096, TypeOfProjectile) (240097, TypeOfTarget) (240098, TypeOfThreat) (240099, UhfFrequency) (240100, UtmAltitude) (240101, UtmLatitude) (240102, UtmLongitude) (240103, VhfFrequency) (240104, VisibilityRange) (240105, VoidAaaHit) (240106, VoidCollision) (240107, VoidEarthHit) (240108, VoidFriendly) (240109, VoidGunHit) (240110, VoidRocketHit) (240111, VoidSamHit) (240112, WeaponData) (240113, WeaponType) (240114, Weather2) (240115, WindDirection2) (240116, WindSpeed) (240117, WingStation) (240118, Yaw) (240119, MemoryOffset) (240120, MemoryData) (240121, VASI) (240122, Beacon) (240123, Strobe) (240124, Culture) (240125, Approach) (240126, RunwayEnd) (240127, Obstruction) (240128, RunwayEdge) (240129, RampTaxiway) (240130, LaserBombCode) (240131, RackType) (240132, HUD) (240133, RoleFileName) (240134, PilotName) (240135, PilotDesignation) (240136, ModelType) (240137, DISType) (240138, Class) (240139, Channel) (240140, EntityType2) (240141, AlternativeEntityType2) (240142, EntityLocation) (240143, EntityLinearVelocity) (240144, EntityOrientation) (240145, DeadReckoning) (240146, FailureSymptom) (240147, MaxFuel) (240148, RefuelingBoomConnect) (240149, AltitudeAGL) (240150, CalibratedAirspeed) (240151, TACANChannel1) (240152, TACANBand1) (240153, TACANMode1) (270115, FuelFlowRate) (270116, FuelTemperature) (270117, FuelPressure) (270150, SKESlot) (270151, SKELead) (270152, SKEFrequency) (270153, FCICmd) (270154, FCINum) (270155, SKEBitField) (270156, FormationPosition) (270157, FormationNumber) (270158, FFSModeActive) (270159, FFSRole) (270160, FFSVCAS) (270161, FFSBitField) (270162, FFSCallSign) (270163, FFSGuidanceData) (270164, FFSTextData) (270165, FFSAirdropRequestData) (270166, FFSAirdropData) (300000, HorizontalCircularErrorProbable) (300001, HorizontalPositionError) (300002, VerticalPositionError) (300003, HorizontalVelocityError) (300004, VerticalVelocityError) (300005, _4thLowestJammertoSignalRatioforP1) (300006, _4thLowestJammertoSignalRatioforP2) (300007, GPSFigureofMerit) (300008, WeaponTransferGPSState) (300009, WeaponTransferHorizontalPositionError) (300010, WeaponTransferVerticalPositionError1) (300011, WeaponTransferVerticalPositionError2) (300012, WeaponTransferHorizontalVelocityError) (300013, TimeTransferError) (300014, AgeofEphemeris) (300016, NonFlyoutMunitionEntityRequestDISTypeEnumeration) (300017, NonFlyoutMunitionEntityRequestLaunchPointX) (300018, NonFlyoutMunitionEntityRequestLaunchPointY) (300019, NonFlyoutMunitionEntityRequestLaunchPointZ) (300020, NonFlyoutMunitionEntityRequestMaximumAltitude) (300021, NonFlyoutMunitionEntityRequestFlightPath) (300022, NonFlyoutMunitionEntityRequestImpactPointX) (300023, NonFlyoutMunitionEntityRequestImpactPointY) (300024, NonFlyoutMunitionEntityRequestImpactPointZ) (300025, NonFlyoutMunitionEntityRequestElapsedFlightTime) (300026, NonFlyoutMunitionEntityRequestLaunchTime) (300027, TimeError) (301100, Link16CommandVariety1) (301130, Push) (301140, Rolex) (301150, TerminateIntercept) (301151, HealDamage) (301152, Destroy) (301160, TransferControlManagement) (301170, Link16ControlsPPLIEnable) (301171, Link16ControlsCommandControlEnable) (301174, Link16ReferencePointMessageInitiation) (301175, AssignExternalEntityLink16TrackNumber) (301176, Link16IntelligenceInfo) (301177, Link16TrackManagement) (301178, Link16ControlsCESGlobalPPLIPublish) (301179, Link16ControlsCESGlobalSurveillancePublish) (301180, RequestGlobalLink16Configuration) (301181, Link16ControlsSurveillanceEnable) (301182, Link16Pointer) (301183, Link16Vector) (301184, Link16ControlUnitChange) (301185, Link16Text) (301186, RequestLink16Objects) (301187, Link16RefObjectNameList) (301189, TotalNumberofPDUsinLink16RefObjectsResponse) (301190, PDUNumberinLink16RefObjectsResponse) (301191, TotalNumberofLink16RefObjects) (301197, Link16ControlsF2FAEnable) (301198, Link16ControlsF2FBEnable) (301199, STNofFormationLeader) (301200, FormationName) (301201, FormationRole) (301202, SurveillanceContributorSensorBasedDetection) (301220, F2FANPG) (301221, Link16ControlsF2FANet) (301222, F2FBNPG) (301223, Link16ControlsF2FBNet) (301224, SurveillanceEnabledNPB) (301225, SurveillanceEnabledNet) (301226, ControlUnitEnabled) (301227, ControlUnitEnabledNPG) (301228, ControlUnitEnabledNet) (301229, VoiceFrequency) (301234, Link16JTIDSVoiceCallsign) (301237, EntityIDofControlUnit) (301238, STNofControlUnit) (301239, NTRParticipationLevel) (301240, Link16ControlsCESGlobalPPLISubscribe) (301241, Link16ControlsCESGlobalSurveillanceSubscribe) (301242, NTRinMission) (301243, NTRMarking) (301244, NTRReceiptCompliance) (301255, FormationF2FNPG) (301256, FormationF2FChannel) (400008, JLVCLogReport) (400009, JLVCSupplyAdjust) (400010, JLVCEntityControl) (400011, JLVCHealthUpdate) (400012, JLVCRepairComplete) (400013, JLVCUnitActivation) (400014, JLVCBattleDamageRepair) (400015, JLVCMinefield) (400016, JLVCWire) (400017, JLVCAbatis) (400018, JLVCCrater) (400019, JLVCDitch) (400020, JLVCLanes) (400021, JLVCIED) (400022, JLVCRubble) (400023, JLVCSubmergedBarrier) (400024, JLVCFloatingBarrier) (400025, JLVCFoxhole) (400026, JLVCVehicleHole) (400027, JLVCVehicleFortification) (400028, JLVCSandbag) (400029, JLVCCheckpoint) (400030, JLVCContamCloud2D) (400031, JLVCPopulationEffect) (400032, JLVCMine) (400033, JLVCSeaMinefield) (500001, Munition) (500002, EngineFuel) (500003, StorageFuel) (500004, NotUsed) (500005, Expendable) (500006, TotalRecordSets) (500007, LaunchedMunition) (500008, Association) (500009, Sensor) (500010, MunitionReload) (500011, EngineFuelReload) (500012, StorageFuelReload) (500013, ExpendableReload) (500014, IFFChangeControlMode1Code) (500015, IFFChangeControlMode2Code) (500016, IFFChangeControlMode3Code) (500017, IFFChangeControlMode4Code) (500018, IFFChangeControlMode5Code) (500019, IFFChangeControlMode6Code) (500021, Link16Data) (500022, ARMAlert) (500023, IFFChangeControlModeOnOff) (500024, WeaponStatusData) (500025, ExpendableStatusData) (500026, TacticStatusData) (500027, EmitterSensorData) (500028, IOSControlData) (500029, StaticStatusData) (500200, RequestInactiveEntities) (500201, InactiveEntityQuantity) (500202, InactiveEntityID) (500203, InactiveEntityType) (500204, ActivationTriggerType) (500205, ActivationTriggerValue) (551001, AirtoAirMissileQty) (551002, AIM7MissileQty) (551003, AIM9MissileQty) (551004, AIM120MissileQty) (551005, AirtoGroundMissileQty) (551006, SurfacetoAirMissileQty) (551007, BulletQty1) (552001, ChaffQty) (552002, FlareQty) (553001, FuelLevel) (553002, RouteType) (553003, ThreatMode) (553004, TargetOccluded) (553005, TerrainHeight) (553006, EntityStatus) (553007, MarshalStatus) (553008, PowerPlantStatus) (553009, NavLightStatus) (553010, InteriorLightStatus) (553011, LandingLightStatus) (553012, FormationLightStatus) (553013, AntiCollisionLightStatus) (553014, NavFormationFlashRate) (553015, AntiColOnDuration) (553016, AntiColOffDuration) (553017, InterceptStatus) (553018, LifeFormSignalingDeviceType) (553019, LifeFormMovementType) (553020, LifeFormInVehicle) (553021, MobilityKill2) (553022, FirepowerKill) (553028, TankerEnabledDisabled) (553029, ThreatStatusTacticOKtoShootDownWeapons) (554001, TACANChannel2) (554002, TACANBand2) (554003, TACANMode2) (554004, RWRStatus) (554005, UHFRadioFrequency) (554006, EmitJammingStatus) (554007, EmitJammingType) (554008, ReceiveJammingStatus) (554009, RADARMode) (554010, AvailableRADARModes) (554100, JammerPodEnumeration) (554101, JammerPodBehavior) (554102, JammerPodPrograms) (554103, JammerPodReceiverSensitivity) (554104, JammerPodReceiverFrequencyMinimum) (554105, JammerPodReceiverFrequencyMaximum) (554106, JammerPodPower) (554107, JammerPodVariability) (554108, JammerPodNumberofFalseTargets) (554109, JammerPodJammerKnob) (554110, JammerPodMissileJamming) (555001, EmitterOverride2) (555002, JammerOverride) (555003, DisengageReengage2) (555004, HeadingOverride) (555005, AltitudeOverride) (555006, SpeedOverride) (555007, VerboseOverride) (555008, OcclusionOverride) (556001, CommitRange) (556007, CurrentScenarioIFFMode4ACodeforThisThreatsAffiliation) (556008, CurrentScenarioIFFMode4BCodeforThisThreatsAffiliation) (556016, OktoEngageWaypointNumber) (556017, MaxSpeedatSeaLevel) (556018, MaxSpeed) (556019, CurrentWaypointNumber) (556020, RouteInformation) (556029, ThreatStatusStaticMultiTargetTrack) (557001, AirAirIRMissileQty) (557002, AirAirRadarMissileQty) (557003, AirGroundIRMissileQty) (557004, AirGroundRadarMissileQty) (557005, AirGroundAntiRadiationMissileQty) (557006, AirGroundBombQty) (557007, AirGroundRocketQty) (557008, SurfaceAirIRMissileQty) (557009, SurfaceAirRadarMissileQty) (557010, BulletQty2) (559001, PPLIPublishEnabled) (559002, SurveillancePublishEnabled) (559003, NPG) (559004, NPGChannel) (559005, JTIDSTrackNumber) (559006, Link16ControlsSurveillanceReportable) (559007, Link16ControlsSurveillanceTrackQuality) (559008, Link16ControlsTargetPositionQuality) (559009, Link16ControlsQualityErrorType) (559010, Link16ControlsAffiliationDeterminationRule) (559011, Link16ControlsResetEntityAffiliation) (559012, Link16ControlsResetAllAffiliation) (559999, EndofMessages) (600001, MalfunctionActivateDeactivateSet) (600002, MalfunctionStatus) (600210, RequestJTIDSTrackNumbers) (600212, TrackNumbersvsEID) (600214, TotalNumberofJTIDSTrackNumbers) (600215, PDUNumberinJTIDSTrackNumberResponse) (600216, TotalNumberofPDUsinJTIDSTrackNumberResponse) (600218, AirtoAirRefuelerEntitiesRequest) (600219, AirtoAirRefuelingCount) (600220, AirToAirRefuelerEntity) (600300, FormationLibraryRequest) (600301, TotalNumberFormationLibraryPDUs1) (600302, PDUNumberinFormationLibraryResponse1) (600303, TotalNumberFormationLibraryItemsinPDU) (600304, FormationLibraryVariable) (600305, CreateRuntimeFormation) (600306, FormationRequestHeader) (600307, FormationPositionAbsolute) (600308, FormationPositionRelative) (610006, ExpendablesReload) (610007, PositionFreeze) (610008, ActivateOwnship) (610009, Chocks) (610010, WarmupCooldownOverride) (610011, GroundPower) (610012, ScrambleStart) (610013, OwnshipasaThreat) (610015, FuelExternal) (610016, FuelInternal) (610017, FuelTankTemp) (610025, GrossWeight) (610026, AngleOfAttack) (610027, GLoad) (610029, WeightOnWheels) (610032, StoredEnergySystemReload) (610035, KillOverride) (610036, ExpendablesFreeze) (610037, GPSSatellitesEnableDisable) (610040, OwnshipMessageDisplay) (610042, WeaponQuantityFreeze) (610043, GlobalControlFreezeWeaponsQuantityOnAllOwnships) (610044, GlobalControlFreezeFuelQuantityOnAllOwnships) (610045, GlobalControlFreezeKillOverrideOnAllOwnships) (610046, GlobalControlFreezeCrashOverrideOnAllOwnships) (610047, OwnshipOFPBlockNumber) (610048, WaypointInformationQuery) (610049, WaypointInformation) (610050, OwnshipSubsystemStatusData) (613002, CockpitSwitchStatus) (613003, IntegratedControlPanelMessages) (613004, ThrottlePositions) (613005, CurrentCriticalSwitchPosition) (613006, CorrectCriticalSwitchPosition) (613007, CurrentCriticalSwitchData) (613008, CorrectCriticalSwitchData) (613013, MissionInitialConditionsSet) (613016, GlobalControlMalfunctionActiveonAllOwnships) (613017, GlobalControlMalfunctionClearOnAllOwnships) (613020, ValidatedCriticalSwitchReport) (613021, SARMapPathname) (613022, ValidatedCriticalSwitchOwnshipID) (613027, LowerBoomEventReport) (613028, RaiseBoomEventReport) (613029, BreakawayEventReport) (613030, CompleteEventReport) (613031, AuxCommPanelFrequencyDisplay) (615000, NetworkStationInformation) (615001, GlobalControlSelectNetworkStation) (615002, NetworkStationUnderGlobalControl) (615003, GlobalControlStillControlling) (615004, GlobalControlReleaseControlofNetworkStation) (615005, GlobalControlFreezeWeaponQuantity) (615006, GlobalControlFreezeFuelQuantity) (615007, GlobalControlFreezeKillOverride) (615008, GlobalControlFreezeCrashOverride) (615009, GlobalControlMalfunctionActive) (615010, GlobalControlMalfunctionClear) (615011, GlobalControlStartDevices) (615012, GlobalControlFreezeDevices) (615013, GlobalControlJTIDSCommand) (615015, NetworkStationICSetInformation) (615017, GlobalControlResetICSet) (615018, NumberofControllingUnits) (615019, NetworkStationJTIDSControllingUnits) (615020, NetworkStationJTIDSObjectiveTracks) (615021, NumberofReferenceObjects) (615022, NetworkStationJTIDSReferenceObjects) (615023, NetworkedStationStillUnderControl) (615024, GlobalControlDeleteThreatEntities) (615025, NetworkStationOwnshipCallsigns) (615026, GlobalControlRequestFormationLibraryData) (615027, TotalNumberFormationLibraryPDUs2) (615028, PDUNumberinFormationLibraryResponse2) (615029, TotalNumberFormationLibraryItemsinPDUs) (615030, NetworkStationFormationLibraryItem) (615031, GlobalControlAddRelativeFormation) (615032, NetworkStationTICFilename) (615033, GlobalControlFreezeWarmupOverride) (615034, GlobalControlReloadSES) (615035, GlobalControlReloadWeapons) (615036, GlobalControlReloadExpendables) (615037, GlobalControlReloadFuel) (615038, GlobalControlReloadFirebottle) (700000, TestPattern) (700001, AudioTest) (700002, AudioTone) (700003, CalibrateThrottles) (700004, OperationalLimitsEventReport) (700005, OperationalLimits) (1000620, EventMarkerMessage) (2000000, ReceiverAircraftAeroModelData) (2000010, TankerAircraftAeroModelData) (2000020, BoomAircraftAeroModelData) (2000030, AccesstoImageGeneratorData1) (2000031, AccesstoImageGeneratorData2) (2000032, AccesstoImageGeneratorData3) (2000033, AccesstoImageGeneratorData4) (2000034, AccesstoImageGeneratorData5) (2000035, AccesstoImageGeneratorData6) (2000036, AccesstoImageGeneratorData7) (2000037, AccesstoImageGeneratorData8) (2000038, AccesstoImageGeneratorData9) (2000039, AccesstoImageGeneratorData10) (2000040, AccesstoImageGeneratorData11) (2000041, AccesstoImageGeneratorData12) (2000042, AccesstoImageGeneratorData13) (2000043, AccesstoImageGeneratorData14) (2000044, AccesstoImageGeneratorData15) (2000045, AccesstoImageGeneratorData16) (2000050, HostLoadNumber) (5005001, ExtendedFireEventReports) (5005002, BattleDamageAssessmentEventReport) (5005003, ExtendedFireEventLauncher) (5005006, ExtendedFireEventMissile) (5005008, ExtendedFireEventMRMWeapon) (5005009, ExtendedFireEventGunFireControl) (5005010, ExtendedFireEventBomb) (5005011, ExtendedFireEventExpendable) (5005012, BattleDamageAssessment) (5005014, ExtendedFirePickleEvent) (5005055, RadarTrackReport) (5005060, JammerReport) (5005061, JammerFalseTargetsReport) (5005063, DetectEventReport) (5005070, MALDBeamReport) (5005080, TransmitterRadiationVolume) (5005081, TransmitterRadiationVolumev2) (5007010, PhysicalNetworkDefinition) (5007020, NetworkChannelDefinition) (5007030, LogicalNetworkDefinition) (5007040, LogicalNetworkEntityDefinition) (5007050, PhysicalNetworkEntityDefinition) (5008010, C2Message) (5008020, CandidateObject) (5008030, SetofCandidateObjects) (5008040, BoundedRegion) (5008050, AngularRegion) (5008060, RoEObject) (5008070, TrackObject) (5008080, SetOfTrackObjects) (5009010, LogicalEntityDefinition) (5009020, LogicalEntityRelationshipDefinition) (5507010, IntentBasedEWMessage));
conv_enum!(Reason, u8; (0, Other) (1, Recess) (2, Termination) (3, SystemFailure) (4, SecurityViolation) (5, EntityReconstitution) (6, StopForReset) (7, StopForRestart) (8, AbortTrainingReturnToTacticalOperations));
conv_enum!(AcknowledgeFlag, u16; (1, CreateEntity) (2, RemoveEntity) (3, StartResume) (4, StopFreeze) (5, TransferOwnership));
conv_enum!(AcknowledgeResponseFlag, u16; (0, Other) (1, AbleToComply) (2, UnableToComply) (3, PendingOperatorAction));
conv_enum!(ActionRequestActionID, u32; (0, Other) (1, LocalStorageOfTherRequestedInformation) (2, InformSMofEventRanOutOfAmmunition) (3, InformSMofEventKilledInAction) (4, InformSMofEventDamage) (5, InformSMofEventMobilityDisabled) (6, InformSMofEventFiredDisabled) (7, InformSMofEventRanOutOfFuel) (8, RecallCheckpointData) (9, RecallInitialParameters) (10, InitiateTetherLead) (11, InitiateTetherFollow) (12, Unthether) (13, InitiateServiceStationResupply) (14, InitiateTailgateResupply) (15, InitiateHitchLead) (16, InitiateHitchFollow) (17, Unhitch) (18, Mount) (19, Dismount) (20, StartDRC) (21, StopDRC) (22, DataQuery) (23, StatusRequest) (24, SendObjectStateData) (25, Reconstitute) (26, LockSiteConfiguration) (27, UnlockSiteConfiguration) (28, UpdateSiteConfiguration) (29, QuerySiteConfiguration) (30, TetheringInformation) (31, MountIntent) (33, AcceptSubscription) (34, Unsubscribe) (35, TeleportEntity) (36, ChangeAggregateState) (37, RequestStartPDU) (38, WakeupGetReadyForInitialization) (39, InitializeInternalParameters) (40, SendPlanData) (41, SynchronizeInternalClocks) (42, Run) (43, SaveInternalParameters) (44, SimulateMalfunction) (45, JoinExercise) (46, ResignExercise) (47, TimeAdvance) (100, TACCSFLOSRequestType1) (101, TACCSFLOSRequestType2) (4303, AirmountMountRequest) (4304, AirmountDismountRequest) (4305, AirmountInformationRequest));
conv_enum!(ActionResponseRequestStatus, u32; (0, Other) (1, Pending) (2, Executing) (3, PartiallyComplete) (4, Complete) (5, RequestRejected) (6, RetransmitRequestNow) (7, RetransmitRequestLater) (8, InvalidTimeParameters) (9, SimulationTimeExceeded) (10, RequestDone) (100, TACCSFLOSReplyTypeOne) (101, TACCSFLOSReplyTypeTwo) (201, JoinExerciseRequestRejected));
conv_enum!(EventType, u32; (0, Other) (2, RanOutOfAmmunition) (3, KilledInAction) (4, Damage) (5, MobilityDisabled) (6, FireDisabled) (7, RanOutOfFuel) (8, EntityInitialization) (9, RequestForIndirectFireOrCASMission) (10, IndirectFireOrCASFire) (11, MinefieldEntry) (12, MinefieldDetonation) (13, VehicleMasterPowerOn) (14, VehicleMasterPowerOff) (15, AggregateStateChangeRequested) (16, PreventCollisionDetonation) (17, OwnershipReport) (18, RadarPerception) (19, Detect));
conv_enum!(RequiredReliabilityService, u8; (0, Acknowledged) (1, Unacknowledged));
conv_enum!(EmitterName, u16; (2, _12456X) (3, _1L117) (4, _1L121E) (5, _1L250) (6, _1L220U) (7, _1L1221E) (9, _1RL257) (10, _1RL138) (11, _1RL257Jammer) (12, _5N20) (13, _5H62B) (14, _5P10) (15, _5P10E) (16, _5P1001) (17, _5P1001E) (18, _5P1002) (19, _5P1002E) (20, _5P1003) (21, _5P1003E) (22, _5P10EMOD) (25, _621A3) (40, _860F1AL101) (42, _9B1103M2) (45, _1226DECCAMIL) (46, _9B1348) (47, _3KM6) (48, _9KR400) (49, _50N6A) (50, _55G61) (55, _59N6) (57, _5N69) (60, _67N6) (63, _76T6) (64, _77T6ABM) (65, _80K6) (66, _91N6A) (70, _96L6E) (75, _96L6TsP) (76, _9C18M3) (77, _9C36M) (80, _9GR400) (81, _9GR400A) (90, _9GR600) (91, _9GR606) (125, _9LV100) (135, _9LV200TA) (180, _9LV200TV) (181, _9LV200TT) (183, _9LV200MKIII) (185, _9LV326) (190, _9M96E2Seeker) (195, _9S15M2) (196, _9S19M2) (197, _9S19ME) (198, _9S32M) (199, _9S32ME) (200, _9S36E) (215, _9S112) (225, A310Z) (270, A325A) (315, A346Z) (360, A353B) (405, A372A) (450, A372B) (495, A372C) (540, A377A) (585, A377B) (630, A380Z) (675, A381Z) (720, A398Z) (765, A403Z) (810, A409A) (855, A418A) (900, A419Z) (945, A429Z) (990, A432Z) (1035, A434Z) (1070, AA6CAcrid) (1073, AA7CApex) (1080, A401A) (1081, AA10A) (1082, AA10CAlamoC) (1085, AA13ArrowSeeker) (1090, AAM4BMH) (1094, AA300) (1095, AA12Seeker) (1096, AD4A) (1097, ADES) (1098, ADS4LRSR) (1099, ACR430) (1100, Agave) (1101, ACSOPRIE) (1102, ABD2000) (1110, ADACMK1) (1111, ADACMK2) (1113, ADAR) (1115, ADOUR) (1117, AGAT9B1348) (1118, AdrosKT01AV) (1120, Agat9E420) (1122, AGM158JASSMSAR) (1123, AGM88HARMMMW) (1125, AGRION15) (1130, AHV7) (1150, AHV17) (1170, AIMK23) (1215, AIDAII) (1216, AIM120A) (1218, AIM7MSparrow) (1230, _1L271) (1240, ALA51) (1260, AlbatrosMK2) (1263, ALT50) (1264, ALTAIR) (1265, AMAPS717) (1268, AMES13MK1) (1270, WGU16B) (1280, _1L133BoxSpring) (1282, _1L133BoxSpringB) (1288, AMDR3D) (1305, ANASPS502) (1306, Anemone) (1350, ANRITSUElectricAR30A) (1395, AntilopeV) (1397, ANAAQ24) (1398, ANADM160) (1400, AN_ALE50) (1410, AN_ALQ76) (1440, AN_ALQ99) (1441, AN_ALQ99Band4) (1442, AN_ALQ99LBT) (1485, AN_ALQ100) (1530, AN_ALQ101) (1575, AN_ALQ119) (1585, AN_ALQ122) (1620, AN_ALQ126A) (1621, AN_ALQ128) (1622, AN_ALQ126B) (1626, AN_ALQ131) (1627, AN_ALQ131BlkII) (1628, AN_ALQ135CD) (1630, AN_ALQ144A3) (1632, AN_ALQ153) (1633, AN_ALQ157Jammer) (1634, AN_ALQ155) (1635, AN_ALQ156) (1636, AN_ALQ161A) (1637, AN_ALQ161) (1638, AN_ALQ162) (1639, AN_ALQ164) (1640, AN_ALQ165) (1641, AN_ALQ187Jammer) (1642, AN_ALQ167) (1643, AN_ALQ1721) (1644, AN_ALQ1722) (1645, AN_ALQ1723) (1646, AN_ALQ176) (1647, AN_ALQ178) (1648, AN_ALQ184) (1649, AN_ALQ1849) (1650, AN_ALQ188) (1651, AN_ALQ214) (1652, AN_ALR56) (1653, AN_ALQ221) (1654, AN_ALR69) (1655, AN_ALQ211) (1656, AN_ALT16A) (1657, AN_ALQ173) (1658, AN_ALT28) (1659, AN_ALR66BJammer) (1660, AN_ALT32A) (1661, AN_ALQ196) (1662, ALQ249NextGenerationJammer) (1663, AN_ALQ2401Jammer) (1664, AN_ALR66BJammer2) (1665, AN_APD10) (1670, AN_ALQ213) (1672, ALQ214A45Jammer) (1680, AN_ALQ218) (1700, ANAPG50) (1710, ANAPG53) (1755, ANAPG59) (1800, ANAPG63) (1805, ANAPG631) (1807, ANAPG632) (1809, ANAPG633) (1845, ANAPG65) (1870, ANAPG66) (1871, ANAPG66V) (1872, ANAPG66V2) (1880, ANAPG67) (1890, ANAPG68) (1895, ANAPG689) (1935, ANAPG70) (1940, ANAPG71) (1945, ANAPG73) (1960, ANAPG77) (1970, ANAPG78) (1971, ANAPG79) (1972, ANAPG80) (1974, ANAPG81) (1975, ANAPG821) (1976, ANAPG83) (1980, ANAPG502) (2025, ANAPN1) (2070, ANAPN22) (2115, ANAPN59) (2160, ANAPN69) (2205, ANAPN81) (2220, ANAPN102) (2250, ANAPN117) (2295, ANAPN118) (2320, ANAPN122) (2340, ANAPN130) (2385, ANAPN131) (2430, ANAPN133) (2475, ANAPN134) (2476, ANAPN141) (2520, ANAPN147) (2565, ANAPN150) (2610, ANAPN153) (2655, ANAPN154) (2700, ANAPN155) (2745, ANAPN159) (2746, ANAPN177) (2747, ANAPN179) (2748, ANAPN169) (2790, ANAPN182) (2835, ANAPN187) (2880, ANAPN190) (2925, ANAPN194) (2970, ANAPN195) (3015, ANAPN198) (3060, ANAPN200) (3105, ANAPN202) (3106, ANAPN215) (3120, ANAPN209) (3121, ANAPN209D) (3122, ANAPN209A) (3148, ANAPN215_2) (3150, ANAPN217) (3152, ANAPN218) (3153, ANAPN224) (3154, ANAPN227) (3155, ANAPN230) (3156, ANAPN232) (3157, ANAPN237A) (3158, ANAPN234) (3159, ANAPN235) (3160, ANAPN238) (3161, ANAPN222) (3162, ANAPN239) (3164, ANAPN241) (3166, ANAPN242) (3170, ANAPN243) (3195, ANAPN506) (3240, ANAPQ72) (3285, ANAPQ99) (3330, ANAPQ100) (3375, ANAPQ102) (3376, ANAPQ107) (3420, ANAPQ109) (3465, ANAPQ113) (3510, ANAPQ120) (3512, ANAPQ122) (3555, ANAPQ126) (3600, ANAPQ128) (3645, ANAPQ129) (3690, ANAPQ148) (3700, ANAPQ150A) (3735, ANAPQ153) (3770, ANAPQ155) (3780, ANAPQ159) (3785, ANAPQ164) (3788, ANAPQ166) (3790, ANAPQ170) (3791, ANAPQ174) (3794, ANAPQ180) (3795, ANAPQ181) (3800, ANAPQ186) (3810, ANAPS15J) (3813, ANAPS162) (3820, ANAPS31) (3825, ANAPS42) (3870, ANAPS80) (3915, ANAPS88) (3916, ANAPS88A) (3920, ANAPS94) (3922, ANAPS96) (3958, ANAPS113) (3960, ANAPS115) (4005, ANAPS116) (4050, ANAPS120) (4095, ANAPS121) (4140, ANAPS124) (4185, ANAPS125) (4190, ANAPS127) (4230, ANAPS128) (4275, ANAPS130) (4320, ANAPS133) (4365, ANAPS134) (4410, ANAPS137) (4413, ANAPS1375) (4415, ANAPS137B) (4420, ANAPS137B5) (4425, ANAPS137D5Elta) (4455, ANAPS138) (4460, ANAPS139) (4464, ANAPS143) (4465, ANAPS1431) (4466, ANAPS143B) (4467, ANAPS1433) (4468, ANAPS143B3) (4475, ANAPS153) (4476, ANAPS154) (4480, ANAPS150) (4482, ANAPS145) (4485, ANAPS147) (4486, ANAPS149) (4489, ANAPS503) (4490, ANAPS504) (4491, ANAPS705) (4500, ANAPW22) (4545, ANAPW23) (4590, ANAPX6) (4635, ANAPX7) (4680, ANAPX39) (4681, ANAPX64) (4725, ANAPX72) (4770, ANAPX76) (4815, ANAPX78) (4816, ANAPX100) (4860, ANAPX101) (4870, ANAPX113AIFF) (4900, ANAPY1) (4905, ANAPY2) (4950, ANAPY3) (4952, ANAPY7) (4953, ANAPY8) (4954, ANAPY9) (4955, ANAPY10) (4995, ANARN21) (5040, ANARN52) (5085, ANARN84) (5130, ANARN118) (5131, ANARN153V) (5165, ANARN153) (5175, ANARW73) (5220, ANASB1) (5265, ANASG21) (5266, ANASN137) (5270, ANASN128) (5280, ANASQ108) (5285, ANASQ239) (5290, ANAST502) (5300, ANAVQ55) (5310, ANAWG9) (5320, ANBRN1) (5325, ANBPS5) (5355, ANBPS9) (5400, ANBPS15) (5401, ANBPS15H) (5402, ANBPS15J) (5405, ANBPS16) (5406, ANBPS162) (5410, ANCPN4) (5415, ANCPN18) (5420, ANCRM30) (5430, ANDPW23) (5445, ANDSQ26PhoenixMH) (5490, ANDSQ28HarpoonMH) (5491, ANFPN1) (5493, ANFPN28) (5494, ANFPN33) (5495, ANFPN40) (5500, ANFPN62) (5502, ANFPN66) (5503, ANFPS8) (5504, ANFPN67) (5505, ANFPS16) (5506, ANFPS5) (5507, ANFPS18) (5508, ANFPS89) (5509, ANFPS49) (5510, ANFPS117) (5511, ANFPS85) (5512, ANFPS88) (5513, ANFPS113) (5514, ANFPS115) (5515, ANFPS20R) (5516, ANFPS132) (5520, ANFPS77) (5521, ANFPS41) (5522, ANFPS100A) (5525, ANFPS103) (5526, ANFPS108) (5527, ANGPN12) (5528, ANFPS124) (5529, ANFPS129) (5530, ANGPX6) (5535, ANGPX8) (5537, ANGRN12) (5538, ANMPN14K) (5539, ANMPN14) (5540, ANMPQ10) (5541, ANMPN17) (5545, ANMPQ3339465761ILL) (5550, ANMPQ34485562TA) (5551, ANMPQ49) (5555, ANMPQ3550TA) (5556, ANMPQ50C) (5560, ANMPQ3751TT) (5565, ANMPQ43) (5567, ANMPQ50) (5570, ANMPQ53) (5571, ANMPQ63) (5575, ANMPQ64) (5576, ANSLQ32) (5577, ANMPQ65) (5578, ANSLQ324) (5579, ANSLQ32A) (5580, ANSPG34) (5582, ANMSQ104) (5583, ANMPS36) (5584, ANSLQ503) (5620, ANSPG48MK25MOD3) (5625, ANSPG50) (5670, ANSPG51) (5690, ANPPQ2) (5700, ANPPS15) (5705, ANPPS5) (5710, ANPPS5D) (5715, ANSPG51CWITI) (5760, ANSPG51FC) (5761, ANSPG51CD) (5805, ANSPG52) (5850, ANSPG53) (5895, ANSPG55B) (5940, ANSPG60) (5985, ANSPG62) (5995, ANSPG503) (6015, ANSPN4) (6025, ANSPN11) (6030, ANSPN35) (6050, ANSPN41) (6075, ANSPN43) (6076, ANSPN43A) (6078, ANSPN43C) (6085, ANSPN46) (6120, ANSPQ2) (6155, ANSPQ5A) (6165, ANSPQ9A) (6166, ANSPQ9B) (6190, ANSPQ34) (6210, ANSPS4) (6255, ANSPS5) (6300, ANSPS5C) (6345, ANSPS6) (6390, ANSPS10) (6435, ANSPS21) (6480, ANSPS28) (6525, ANSPS37) (6570, ANSPS39A) (6615, ANSPS40) (6660, ANSPS41) (6705, ANSPS48) (6750, ANSPS48C) (6752, ANSPS48E) (6795, ANSPS49) (6796, ANSPS491) (6797, ANSPS492) (6798, ANSPS493) (6799, ANSPS494) (6800, ANSPS495) (6801, ANSPS496) (6802, ANSPS497) (6803, ANSPS498) (6804, ANSPS49A1) (6840, ANSPS52) (6885, ANSPS53) (6930, ANSPS55) (6945, ANSPS52C) (6970, ANSPS55CS) (6975, ANSPS55SS) (7020, ANSPS58) (7025, ANSPS58C) (7065, ANSPS59) (7110, ANSPS64) (7119, ANSPS649) (7120, SPS6412) (7155, ANSPS65) (7175, ANSPS66) (7200, ANSPS67) (7201, ANSPS73_1) (7210, ANSPS69) (7215, ANSPS73_2) (7216, ANSPS74) (7225, ANSPS88) (7226, ANSPS501) (7230, ANSPS505) (7245, ANSPY1) (7250, ANSPY1A) (7252, ANSPY1B_1) (7253, ANSPY1B_2) (7260, ANSPY1D_1) (7261, ANSPY1D_2) (7265, ANSPY1F) (7266, ANSPY3) (7267, ANTPN12) (7268, ANSPY4) (7269, ANTLQ32ARMDecoy) (7270, ANTPN17) (7271, ANTPN8) (7272, ANTPN22) (7273, ANTLQ17A) (7274, ANTMS1) (7275, ANTPN24) (7276, ANTPN25) (7277, ANTMS2) (7278, ANTPN19) (7279, ANTPN31) (7280, ANTPQ18) (7281, ANSPY6) (7295, ANTPQ36) (7300, ANTPQ37) (7301, ANTPQ38) (7302, ANTPQ39) (7303, ANTPQ47) (7305, ANTPS43) (7310, ANTPS43E) (7311, ANTPQ48) (7312, ANTPQ49) (7313, ANTPQ46A) (7314, ANTPS34) (7315, ANTPS59) (7316, ANTPS44) (7317, ANTPQ50) (7320, ANTPS63) (7321, ANTPS65) (7322, ANTPS701) (7323, ANTPS63SS) (7324, ANTPS73) (7325, ANTPS75) (7326, ANTPS77) (7327, ANTPS78) (7328, ANTPS79) (7329, ANTPS703) (7330, ANTPX467) (7331, ANTPS80) (7333, ANTPY2) (7334, ANTSQ288) (7335, ANULQ6A) (7340, ANULQ19) (7345, ANULQ21) (7380, ANUPN25) (7425, ANUPS1) (7426, ANUPS2) (7427, ANUPS3) (7470, ANUPX1) (7515, ANUPX5) (7560, ANUPX11) (7605, ANUPX12) (7650, ANUPX17) (7695, ANUPX23) (7700, ANUSQ1133) (7740, ANVPS2) (7750, ANPLM3) (7751, ANPLM3A) (7752, ANPLM4) (7753, ANZPY1) (7754, ANZPY2MPRTIP) (7755, ANZPY3) (7760, ANZPY8) (7761, AORL1AS) (7762, AORL85KTKMTA) (7765, APAR) (7770, Aparna) (7780, APECSII) (7785, ApelcoAD77) (7830, APG71) (7875, APN148) (7920, APN227) (7965, APQ113) (8010, APQ120) (8055, APQ148) (8100, APS504V3) (8102, AQUITAINEII) (8103, AR1) (8105, AR3D) (8112, PlesseyAR5) (8113, AR15) (8114, AR152) (8115, AR320) (8118, AR325) (8120, AR327) (8121, Arbalet52) (8122, ARBB31) (8123, ARBB33) (8126, ARIES) (8127, AriesNav) (8128, AriesCS) (8134, ARGS14E) (8135, ARGS31) (8140, ARGUS) (8145, ARM31) (8150, ARECIBO) (8160, ARED) (8190, ARI5954) (8235, ARI5955) (8280, ARI5979) (8281, ARGSN31) (8282, ARGOS10) (8283, ARGOS800) (8284, ARI5983) (8285, ARI5991) (8290, ARI5995) (8325, ARINC564BNDXKINGRDR1E) (8370, ARINC700BNDXKINGRDR1E) (8375, ARK1) (8378, ARLMMTI) (8379, ARMOR) (8380, ARSR3) (8381, ARS400) (8382, ARSR1) (8384, ARSR4) (8390, ARSR18) (8395, ARTHUR) (8400, ARTHURMODB) (8405, ARTHURMODC) (8410, ARTISAN3D) (8415, AS2Kipper) (8460, AS2KipperMH) (8470, AS3YJ83KmmWMH) (8480, AS_34KormoranSeeker) (8505, AS4Kitchen) (8550, AS4KitchenMH) (8595, AS5KeltMH) (8640, AS6KingfishMH) (8685, AS7Kerry) (8730, AS7KerryMG) (8735, AS15KENTaltimeter) (8736, AS17AKryptonSeeker) (8737, AS17BKryptonSeeker) (8750, AS901) (8751, AS901A) (8755, ASARS2) (8756, ASDEKDD) (8757, ASLESHA) (8758, ASMGCS) (8759, ASMI18X) (8760, AspideAAMSAMILL) (8761, ASMI3) (8762, AselsanMAR) (8771, ASR2000) (8772, ASR4) (8773, ASR4D) (8775, ASRO) (8776, ASR12_1) (8778, ASR22AL) (8779, ASR3) (8780, ASR5) (8782, ASR7) (8785, ASR8) (8790, ASR9) (8791, ASR9000) (8792, ASTI) (8793, ASR11DASR) (8795, ASR12_2) (8812, RaytheonASR10SS) (8816, ASR23SS) (8818, Arabel) (8819, ASTRE) (8820, AT2SwatterMG) (8824, _9K114ShturmMG) (8825, ASTOR) (8826, ASTRARCI) (8830, ATCR22) (8831, ATCR22M) (8832, ATCR2T) (8840, ATCR33) (8845, ATCR33KM) (8846, ATCR33S) (8847, ATCR3T) (8848, ATCR44) (8849, ATCR44K) (8850, Argos73) (8851, ATCR44MS) (8852, ATCR4T) (8865, AtlasElektronkTRSN) (8866, ATLAS8600X) (8867, Atlas9600M) (8868, ATLAS9600X) (8869, ATLAS9600S) (8870, ATLAS9740VTS) (8871, ATLASS) (8880, ATR500C) (8910, AVG65) (8955, AVH7) (8980, AVIACM) (8985, AVIAD) (8990, Aviaconversia) (8993, AviaconversiaII) (8995, AviaconversiaIII) (9000, AVQ20) (9005, AVQ21) (9045, AVQ30X) (9075, AVQ50) (9090, AVQ70) (9135, AWS5) (9180, AWS6) (9185, AWS6B300) (9200, B597Z) (9205, B636Z) (9215, BackBoard) (9225, BackNetAB) (9270, BackTrap) (9280, BAESystemsRT1805APN) (9281, BAESDASS2000Jammer) (9285, BalanceBeam) (9300, BALTIKAB) (9310, BALTYK) (9315, BallEnd) (9360, BallGun) (9370, BALLPOINT) (9405, BandStand) (9406, BandStand3) (9450, P3537) (9475, BARAX) (9485, BASIR110D) (9495, BassTilt) (9505, Badger) (9510, BarracudaJammer) (9530, BaykalCountermeasuresSuite) (9540, Beacon) (9585, BeanSticks) (9630, BeeHind) (9638, BellNipJammer) (9639, BellPushJammer) (9640, BellCrownA) (9642, BellCrownB) (9643, BellSquat) (9645, BIGBACK) (9659, BigBirdABC) (9660, BigBirdD) (9661, BigBirdDMod) (9662, BigBirdE91N6E) (9675, BigBulge) (9720, BigBulgeA) (9765, BigBulgeB) (9775, BIGEYE) (9780, SNAR10) (9781, BIGHEADB) (9810, BigMesh) (9855, BigNet) (9885, _9S15MT) (9900, BillFold) (9903, BLIGHTER400) (9905, BlowpipeMG) (9920, BLR) (9930, BlueFox) (9933, BlueKestrel) (9935, BlueVixen) (9945, BlueSilk) (9990, BlueParrot) (10035, BlueOrchid) (10057, BMDJG8715) (10080, BoatSail) (10090, BORA550) (10125, BoforsElectronic9LV331) (10170, BoforsEricssonSeaGiraffe50HC) (10215, BowlMesh) (10260, BoxBrick) (10305, BoxTrail) (10308, BMKG300GJammingPod) (10310, BMKG600JammingPod) (10312, BMKG800JammingPod) (10315, BMKG860186058606) (10350, BPS11A) (10395, BPS14) (10440, BPS15A) (10450, BR3440CAX57) (10485, BR15TokyoKEIKI) (10500, BrahMos) (10510, BridgeMaster) (10511, BridgeMasterEEPA) (10512, BridgeMasterEATAandARPA) (10513, BridgeMasterEnaval) (10520, BrimstonemmWMH) (10530, BreadBin) (10540, Asr) (10575, BT271) (10595, BU304) (10620, BX732) (10630, BUKMB) (10642, BuranD) (10650, BUREVISNYK1) (10665, BuzzStand) (10710, C5AMultiModeRadar) (10711, C802AL) (10740, CAESAR) (10755, Caiman) (10800, CakeStand) (10845, CalypsoC61) (10846, CalypsoC63) (10890, CalypsoIi) (10891, CalypsoIII) (10892, CalypsoIV) (10895, CardionCoastal) (10935, CastorIi) (10940, Castor2JTT) (10980, CatHouse) (10985, CDR431) (10987, CEAFAR) (10988, CEAMOUNT) (10989, CEAFAR2L) (10990, CEROS200) (10991, CEROS200CWI) (10992, CEATAC) (10993, CEAOPS) (10994, CerberusIII) (10995, CHSSN6) (10996, CerberusIV) (11000, ChairBlackTT) (11010, ChairBlackILL) (11020, LEMZ96L6) (11025, CheeseBrick) (11030, CheeseCake) (11070, LeninetzObzorMS) (11115, Clamshell) (11117, CLC1) (11118, CLC2) (11119, CLC3) (11120, CLR155) (11123, COASTWATCHER100) (11125, CoastalGiraffe) (11130, COBRA) (11133, CobraShoe) (11137, Colibri) (11155, CollinsWXR300) (11160, CollinsWXR700X) (11165, CollinsTWR850) (11205, CollinsDN101) (11230, COMET1) (11235, CONDORMK2) (11240, ConsiliumSelesmarRTM25XIM) (11250, ContravesSeaHunterMK4) (11260, CornCan) (11265, COSMOSKYMED1) (11270, CR105RMCA) (11280, CREWDuke2) (11290, CREWDuke3) (11295, CrossBird) (11340, CrossDome) (11385, CrossLegs) (11430, CrossOut) (11475, CrossSlot) (11520, CrossSword) (11565, CrossUp) (11610, CrossSwordFC) (11655, CrotaleAcquisitionTA) (11660, CrotaleNGTA) (11665, CrotaleTT) (11700, CrotaleMGMissileSystem) (11715, CS10TA) (11725, CSFVaran) (11735, CSSN4MH) (11745, CSSC3CCAS1M1M2MH) (11748, HY2BMH) (11790, CSSC2BHY1AMH) (11800, CSSN4Sardine) (11810, CSSN8Saccade) (11825, CurlStoneB) (11830, CWS1) (11835, CWS2) (11840, CWS3) (11860, Cygnus) (11880, CylinderHead) (11902, Cymbeline) (11925, CyranoII) (11970, CyranoIV) (11975, CyranoIVM) (12010, DA0100) (12015, DA0500) (12016, DA052) (12018, DA_08) (12060, Dawn) (12090, DCR) (12105, DeadDuck) (12110, DECCA20V909) (12111, DECCA20V90S) (12150, DECCA45) (12195, DECCA50) (12196, DECCA71) (12197, Decca72) (12240, DECCA110) (12285, DECCA170) (12292, DECCAHF2) (12330, DECCA202) (12375, DECCAD202) (12420, DECCA303) (12430, DECCA535) (12465, DECCA626) (12510, DECCA629) (12555, DECCA914) (12600, DECCA916) (12610, DECCA926) (12615, DECCA1070A) (12616, Decca1008) (12645, DECCA1226Commercial) (12655, DECCA1290) (12690, DECCA1626) (12691, DECCA2070) (12694, Decca1630) (12735, DECCA2459) (12780, DECCAAWS1) (12782, DECCAAWS2) (12785, DECCAAWS4) (12787, DECCAAWS42) (12800, DECCAMAR) (12805, DECCARM326) (12825, DECCARM416) (12850, DECCARM970BT) (12870, DECCARM914) (12875, DF21DSeeker) (12915, DECCARM1690) (12916, DECCA1690) (12960, DECCASuper101MK3) (13005, DISS1) (13006, DISS7) (13007, DISS013) (13015, DISS15D) (13020, DLD100A) (13050, RapierTTDN181) (13055, Rapier2000TT) (13095, DogEar) (13140, DogHouse) (13141, DM3) (13142, DM3B) (13143, DM5) (13185, Don2) (13230, DonAB2Kay) (13275, Donets) (13280, Doppler90Series) (13320, DownBeat) (13360, DR582) (13365, DRAA2A) (13410, DRAA2B) (13415, DRAA9A) (13420, DRAA11A) (13450, DRAC37B) (13452, DRAC38) (13455, DRAC39) (13456, DRAC39A) (13460, DRAC43A) (13465, DRAC44A) (13477, DragonEye) (13480, DragonEye2) (13481, DragonEye3) (13485, DragonEye4) (13500, DRBC30B) (13545, DRBC31A) (13546, DRBC31D) (13585, DRBC32) (13590, DRBC32A) (13635, DRBC32D) (13680, DRBC33A) (13725, DRBI10) (13770, DRBI23) (13815, DRBJ11B) (13860, DRBN30) (13905, DRBN32) (13915, DRBN34) (13950, DRBR51) (13994, DRBV20A) (13995, DRBV20B) (14020, DRBV21Mars05) (14040, DRBV22) (14041, DRBV23) (14085, DRBV26C) (14086, DRBV26D) (14130, DRBV30) (14131, DRBV31) (14175, DRBV50) (14220, DRBV51) (14265, DRBV51A) (14310, DRBV51B) (14355, DRBV51C) (14400, DropKick) (14445, DRUA31) (14490, DrumTilt) (14535, DrumTiltA) (14545, DrumTiltB) (14560, DRUN30A) (14580, Dumbo) (14583, DWSR92) (14585, DWSR93S) (14586, EAGLE) (14587, EAGLEMk1) (14588, EAJPJammingPod) (14590, EKCOE390) (14600, ECR90) (14601, ECR90Jammer) (14625, EggCupAB) (14640, EISCAT) (14660, EKCOE120) (14670, EKCO190) (14677, Ekran1) (14710, ELL8222) (14713, ELL8240) (14715, ELM2001B) (14725, ELM2022) (14726, ELM2032) (14727, ELM2052) (14728, ELM2055) (14730, ELM2060) (14735, ELM2075) (14736, ELM2022U3) (14737, ELM2080) (14738, ELM2080S) (14739, ELM2085) (14740, ELM2106) (14741, ELM2106NG) (14742, ELM2125) (14743, ELM2129) (14744, ELM2150) (14745, ELM2083) (14746, ELM2084) (14747, ELM2160V1) (14748, ELM2084MMR) (14749, ELM2112) (14750, ELM2200) (14751, ELM2133) (14755, ELM2205) (14760, ELM2207) (14765, ELM2215) (14770, ELM2216V) (14772, ELM2216XH) (14775, ELM2218S) (14776, ELT361) (14777, ELM2258) (14779, ELT553) (14780, ELT558) (14785, ELT572) (14790, ELT715) (14800, EltaELM2022A) (14805, ELTAELM2221GMSTGR) (14806, ELM2228S3D) (14807, ELM2705) (14808, ELM2226) (14809, ELM2228X) (14810, ELTASIS) (14811, ELM2238) (14815, ELM2248) (14820, ELM2288) (14821, ELM2311) (14822, ELM2026) (14830, ELNA4007) (14831, ELT318) (14832, ELW2085) (14833, ELT521) (14835, ELW2090) (14845, EnhancedMeteorDetectionRadarEMDR) (14850, EMD2900) (14851, EMPAR) (14895, EndTray) (14896, EQ36) (14897, EricssonSLAR) (14898, Erieye) (14900, ESR1) (14901, ESR220) (14902, ESR380) (14903, ESTEREL) (14905, ET316) (14935, ExocetType) (14936, ExocetAL) (14940, Exocet1) (14985, Exocet1MH) (15030, Exocet2) (15075, EyeBowl) (15120, EyeShield) (15140, F332Z) (15155, FalconClawTI) (15156, FalconClawTT) (15160, FALCON) (15161, FALCONG) (15163, FalconEye) (15165, FanSongA) (15200, FanSongBFTA) (15210, FanSongBFTT) (15220, FanSongCETA) (15230, FanSongCETT) (15240, FanSongCEMG) (15255, FanSongBFFMG) (15300, FanTail) (15301, FAR2117) (15302, FAR2827) (15303, FAR2837S) (15304, FAR3000) (15305, FB7Radar) (15310, FCR1401) (15312, FCS212E) (15313, FCS212G) (15315, FCS221A) (15317, FCS221C) (15318, FCS222) (15319, FCS231) (15320, FCS3) (15345, FinCurve) (15390, FireCan) (15435, FireDish) (15470, FireDomeTA) (15475, FireDomeTT) (15480, FireDomeTI) (15525, FireIron) (15570, FireWheel) (15615, FishBowl) (15620, FK3) (15650, FLAIR) (15660, FlapLid) (15661, _30N6E) (15705, FlapTruck) (15750, FlapWheel) (15795, FlashDance) (15800, FlashDanceM) (15840, P15) (15842, _35N6) (15885, FlatScreen) (15930, FlatSpin) (15970, FlatTrackJammer) (15975, FlatTwin) (15980, FL400) (15985, FL1800) (15990, FL1800U) (16000, FL1800S) (16020, Fledermaus) (16030, FLYCATCHER) (16035, FLYCATCHERMK2) (16065, FlyScreen) (16110, FlyScreenAB) (16155, FlyTrapB) (16160, FM90) (16200, FogLampMG) (16245, FogLampTT) (16290, FoilTwo) (16300, FootBall) (16335, FoxHunter) (16380, FoxFireAL) (16390, FoxFireILL) (16400, FR151A) (16405, FurunoFR1500FR1600) (16410, FR1505DA) (16412, FR1510DS) (16420, FR2000) (16421, Furuno2855W) (16422, FregatMAE) (16423, FregatN1) (16424, FregatN2) (16425, FrontDome) (16426, FregatMAE5) (16470, FrontDoor) (16515, FrontPiece) (16520, FurbymmWMH) (16550, Furke) (16552, Furke2) (16554, Furke4) (16560, Furuno) (16561, Furuno1721) (16564, Furuno1934C) (16565, Furuno1715) (16580, Furuno1730) (16581, Furuno1731Mark3) (16585, Furuno1832) (16587, Furuno1835) (16590, Furuno1932) (16596, Furuno1935) (16605, Furuno701) (16606, Furuno1940) (16650, Furuno7112) (16652, FurunoFR2130S) (16654, FurunoFAR2137S) (16655, FurunoFAR28X7) (16658, FurunoFAR3230S) (16660, FR2110) (16662, FR2115) (16663, FR8062) (16670, Furuno2125) (16690, Furuno240) (16695, Furuno2400) (16725, FR801D) (16730, Furuno8051) (16732, FurunoDRS2D) (16733, FurunoDRS4D) (16734, FurunoDRS4A) (16735, G030A) (16736, FurunoDRS6AXClass) (16737, DRS4W) (16740, GA0100) (16750, Gabbiano) (16785, Gage) (16787, Gaofen3) (16789, GAOFEN12) (16790, GAPGATE) (16800, Gardenia) (16815, GarminGMR1224) (16820, GarminFantom24) (16825, GarminGWX68WeatherRadar) (16830, Garpin) (16833, GateGuard) (16835, GarpunBalE) (16840, GBS1) (16850, GCA2000) (16858, Furuno18321921Series) (16870, GEMINIDB) (16871, GEMOlympus) (16872, GEMSentinel) (16875, GEMBX132) (16876, GEMSC2050X) (16877, GEMSeaEagle200N) (16879, GenericInternalJammer) (16880, MPDR12) (16881, GENX) (16884, GepardTT) (16888, GERANF) (16890, GERFAUT) (16895, GFE1) (16900, GIRAFFE) (16903, GIRAFFE1X) (16905, Giraffe40) (16908, Giraffe50AT) (16912, Giraffe75) (16915, GinSlingTA) (16920, GinSling) (16925, GinSlingMG) (16930, GoalKeeper) (16935, GoldenDome) (16940, GoldenHeart) (16942, GoldenRock) (16945, GPN22) (16946, GPSJ10) (16947, GPSJ25) (16948, GPSJ40) (16949, GPSJ50) (16950, GRN9) (16951, GRANK) (16960, GraveStone) (16963, GRAVES) (16965, GreenStain) (17010, GridBow) (17016, GrifoF) (17025, _9S32) (17027, GRILLSCREEN) (17029, Grom2) (17030, GROUNDMASTER400) (17031, GT4) (17032, GRS440) (17050, GUARDIAN) (17055, Guardsman) (17070, RPK2) (17075, HRJZ7264AJammer) (17079, H025) (17080, HADR) (17100, HairNet) (17145, HalfPlateA) (17190, HalfPlateB) (17220, HARD) (17225, Harpoon) (17230, HatBox) (17235, HawkScreech) (17250, HayPole) (17255, HayRick) (17280, HeadLightA) (17325, HeadLights) (17370, HeadLightsC) (17415, HeadLightsMGA) (17460, HeadLightsMGB) (17505, HeadLightsTT) (17550, HeadNet) (17572, HeartAcheB) (17590, HellfiremmWMH) (17595, HenEgg) (17640, HenHouse) (17685, HenNest) (17730, HenRoost) (17732, Herakles) (17735, HF2MG) (17745, HGR105) (17775, HighBrick) (17820, HighFix) (17842, HighGuard) (17865, HighLarkTI) (17910, HighLark1) (17955, HighLark2) (18000, HighLark4) (18045, HighLune) (18090, HighPoleAB) (18135, HighScoop) (18150, _9S19MT) (18180, HighSieve) (18185, HillBlock) (18189, HimalayasCountermeasuresSuite) (18190, HG9550) (18193, HJ6374) (18194, HLDRADAR900) (18195, HLJQ520) (18200, HN503) (18201, HNC03M) (18225, HomeTalk) (18270, HornSpoon) (18280, HotBrick) (18315, HotFlash) (18316, HotFlash2) (18318, IHS6) (18320, IRL144MHotShotTA) (18325, IRL144MHotShotTT) (18330, IRL144MHotShotMG) (18331, HPS106) (18332, HPS104) (18339, HQ9MH) (18340, HSR1128) (18348, HT233) (18350, HQ61) (18351, HRJS) (18352, IDerbyER) (18353, IBIS80) (18355, IBIS150) (18357, IBIS200) (18360, IFFMKXIIAIMSUPX29) (18400, Janet) (18405, IFFMKXV) (18406, IFFINT) (18407, JackKnife) (18408, IFFTRSP) (18409, JMUSICElbitSystemsJammer) (18410, JavelinMG) (18445, JALQ8) (18449, JFPS7) (18450, JayBird) (18451, JFPS3) (18452, JH10) (18453, JMPQP7) (18454, JL7) (18455, JL10B) (18456, JMA1576) (18457, JRCJMA92526CA) (18458, JLP40) (18459, JRCJMR9200SeriesX) (18460, JRCNMD401) (18461, JRCJRM310MK2) (18462, JMA1596) (18464, JMA7000) (18465, JRCJMA7700) (18466, JMA5320) (18467, JRCJMR92106XC) (18468, JERS1) (18469, JINDALEE) (18470, JRCJMA9900series) (18471, JLP40D) (18475, JRCJMA5300series) (18495, Jupiter) (18540, JupiterII) (18550, JY8) (18551, JY8A) (18555, JY9) (18556, JY9Modified) (18557, JY11EW) (18560, JY14) (18561, JY14A) (18565, JY16) (18570, JY24) (18571, JAPG1) (18572, JAPG2) (18575, JY29) (18578, JYL1) (18580, JYL6) (18582, JYL6A) (18583, JZQF612) (18585, K376Z) (18586, K77M) (18600, Kaige) (18610, KALKAN) (18611, KBPAfganit) (18615, KALKANII) (18630, KelvinHughes2A) (18675, KelvinHughes149) (18700, Karpaty) (18710, Kashtan3JammingSystem) (18720, KelvinHughestype1006) (18765, KelvinHughestype1007) (18766, KelvinHughesType1007FBand) (18767, KelvinHughes2007FBand) (18768, KelvinHughes2007IBand) (18770, KHNucleus5000) (18774, KHMANTA) (18775, KHNUCLEUS26000) (18776, KHNUCLEUS35000) (18777, KHNUCLEUS36000A) (18780, KHFamily) (18781, KelvinHughes6000A) (18782, Kh38MAEMH) (18784, KG8605A) (18785, KH902M) (18786, KHOROMK) (18787, KHIBINY) (18789, KG300E) (18790, KHSharpEye) (18791, KHSharpEyeB) (18792, KHSharpEyeC) (18795, KH1700) (18797, KingPin) (18805, KG300) (18810, KiteScreech) (18855, KiteScreechA) (18900, KiteScreechB) (18930, KLC3B) (18944, KJ500NanjingRadar) (18945, Kivach) (18946, KJ500Jammer) (18947, KLC1) (18948, KLJ1) (18950, KLJ3) (18951, KLJ4) (18952, KLJ4B) (18955, KLJ5) (18960, KLJ7) (18961, KLJ7B) (18962, KLJ7A) (18990, KnifeRest) (19035, P10) (19037, KNIFERESTC) (19039, KodenMD3730) (19040, KJ2000) (19041, KODENMDC900) (19042, Koopol) (19045, KOPYOI) (19050, KR75) (19051, KRONOS) (19052, KREDO1E) (19053, Krasukha2) (19054, KRONOSGRANDNAVAL) (19060, KRM66E) (19080, KSASRN) (19125, KSATSR) (19127, KS1APHASEDARRAY) (19129, KS418) (19130, KS418E) (19131, KZ100) (19132, KZ900) (19140, L175V) (19142, L3705PresidentSJammer) (19143, L415) (19145, L88) (19150, LAADS) (19170, LandFall) (19215, LandRollMG) (19260, LandRollTA) (19305, LandRollTT) (19306, LAZUR) (19307, Model791A) (19309, LAP3000) (19310, LC150) (19320, LEER3) (19330, LegDrive) (19340, LeninetzV004) (19350, Leningraf) (19370, LIANA) (19395, LightBulb) (19396, LIRAA10) (19397, LIROD8) (19398, LIRODMKII) (19399, LLX05K) (19400, LMTNRAI6A) (19440, LN55) (19485, Ln66) (19500, Liman) (19505, Liman2) (19520, LockheedVigilance) (19530, LongBow) (19575, LongBrick) (19620, LongBull) (19665, LongEye) (19710, LongHead) (19755, LongTalk) (19800, LongTrack) (19845, LongTrough) (19890, LookTwo) (19920, LOPAR) (19935, LORAN) (19950, LowBlowTA) (19955, LowBlowTT) (19960, LowBlowMG) (19970, LowJackTT) (19971, LowJackMG) (19980, LowSieve) (20025, LowTrough) (20029, LR66) (20030, LRA900) (20040, TRS2050) (20060, LW01) (20070, LW08) (20090, M1983FCR) (20115, M2240) (20160, M44) (20205, M401Z) (20250, M585Z) (20295, M588Z) (20340, MA1IFFPortion) (20350, MADHACK) (20360, MARELD) (20385, MAType909) (20420, MARCS152) (20430, Marconi1810) (20475, MarconiCanadaHC75) (20495, MarconiS713) (20520, MarconiS1802) (20530, MarconiS247) (20565, MarconiS810) (20585, MarconiSA10) (20589, MARCONIST801) (20590, MarconiST805) (20610, Marconitype967) (20655, Marconitype968) (20700, Marconitype992) (20745, Marconisignaaltype1022) (20790, Marconisignaaltype910) (20835, Marconisignaaltype911) (20880, Marconisignaaltype992R) (20890, MARTELLO743D) (20895, MARTELLOS723A) (20897, MASTERA) (20898, MBDAFLAADSMJammer) (20915, MELCO3) (20917, MELODI) (20918, MERLIN) (20919, Meraj4) (20920, NorthropGrummanMESA) (20925, MeshBrick) (20927, METEOR1500S) (20929, METEOR200) (20930, METEOR50DX) (20931, METEOR300) (20933, MeteorBVRAAM) (20935, MFR) (20940, MFSR210045) (20942, MICAMH) (20943, MICARF) (20945, MineralME) (20950, MirageILL) (20955, MiysisJammer) (20969, MK15) (20970, MK15CIWS) (21015, MK23) (21060, MK23TAS) (21105, MK25) (21110, Mk25Mod3) (21130, Mk25Mod7) (21150, MK35M2) (21195, MK92) (21240, MK92CAS) (21285, MK92STIR) (21330, MK95) (21332, MKS818) (21340, MLA1) (21359, MMAPQ706) (21360, MM950) (21375, MMAPS705) (21390, MMAPS784) (21419, MMSPG73) (21420, MMSPG74) (21465, MMSPG75) (21490, MMSPN703) (21492, MMSPN730) (21495, MMSPN753B) (21500, MMSPQ3) (21510, MMSPS702) (21555, MMSPS768) (21600, MMSPS774) (21610, MMSPS791) (21615, MMSPS794) (21620, MMSPS798) (21623, MMSR) (21625, Model17C) (21645, Moon4) (21646, MoonPie) (21647, MOONCONE) (21648, MoonRack) (21649, MOONFACE) (21650, MMRS) (21655, Model360) (21660, Model378) (21661, Model970) (21665, Model974) (21672, MONOLITB) (21675, Monument) (21680, Mouse) (21682, MP411ESM) (21685, MPDR18S) (21690, MPDR18X) (21692, MPDR45E) (21693, MR2311) (21695, MPR) (21696, MR2314) (21697, MPS1) (21698, MR36B) (21699, MR231MOD) (21700, MR1600) (21701, MRR) (21702, MR35) (21703, MR36) (21704, MRL1) (21705, MRL4) (21706, MRL5) (21707, MSAM) (21708, MR36A) (21709, MSTAR) (21710, MT305X) (21711, MR10M1E) (21712, MR90) (21715, MRK411) (21716, MR320MTopazV) (21720, MSP418K) (21735, MuffCob) (21780, Mushroom) (21825, Mushroom1) (21870, Mushroom2) (21871, Mushroom3) (21872, N23) (21873, N011MBars) (21874, N011MBarsB) (21875, N011MBarsC) (21876, N011MBarsR) (21877, N035IrbisE) (21878, N036Byelka) (21879, N25) (21880, N920Z) (21881, N001V) (21884, NACOSRADARPILOTPlatinum) (21885, NampoB) (21886, NAGIRA) (21890, NanjingB) (21895, NanjingC) (21915, Nayada) (21917, NAYADA5M) (21918, NAYADA5PV) (21919, NEBOM) (21920, NeboSVU) (21960, Neptun) (21965, Nettuno4100) (21970, NIKEHERCULESMTR) (21980, NIKETT) (21981, NorthropGrummanMFEWJammer) (21982, NORINCO3D) (21983, NJ81E) (21984, Normandie) (21985, NRJ6A) (21986, NOSTRADAMUS) (21987, NPG1240) (21988, NPG1460) (21989, NPG434) (21990, NPG630) (21991, NPM510) (21992, NutCan) (21995, NPVegaLiana) (22000, NovellaNV1_70) (22005, NRBA50) (22050, NRBA51) (22095, NRBF20A) (22110, NRJ5) (22115, NS9005) (22125, NS100Series) (22127, NUR31) (22130, NWS3) (22140, NysaB) (22185, O524A) (22230, O580B) (22275, O625Z) (22320, O626Z) (22335, OceanMaster) (22340, OceanMaster400) (22345, OddGroup) (22365, OddLot) (22410, OddPair) (22411, OddRods) (22455, Oka) (22460, OFOGH) (22463, OFOGH3) (22500, OKEAN) (22505, OKEANA) (22545, OKINXE12C) (22560, OKO) (22590, OMEGA) (22635, OmeraORB32) (22640, OMUL) (22680, OneEye) (22690, OP28) (22695, OPRL4) (22696, OPRM71) (22697, OPS9) (22700, OPS11BC) (22701, OPS12) (22705, OPS14B) (22706, OPS14C) (22725, OPS16B) (22730, OPS18) (22732, OPS19) (22735, OPS20) (22736, OPS22) (22737, OPS24) (22740, OPS28) (22745, OPS28C) (22750, OPS39) (22760, OPTIMA3_2) (22770, OR2) (22800, ORB31D) (22810, ORB31S) (22815, ORB32) (22830, ORB42) (22860, OrionRtn10X) (22890, SurfaceWave) (22900, OtomatMK1) (22905, OtomatMKIITeseo) (22906, OtomatSeriesAL) (22950, OwlScreech) (22955, P360Z) (22956, P14) (22957, P180U) (22959, P182) (22960, PA1660) (22961, P18M) (22962, P190U) (22963, P30) (22964, P18MOD) (22965, P35M) (22970, PAGE) (22977, PaintBox) (22995, PalmFrond) (22998, ModifiedPaintBox) (23040, PalmFrondAB) (23041, Pandora) (23042, PALSAR2) (23043, PantsirSMTAR) (23045, PAR2) (23050, PAR2000) (23053, PAR2090C) (23055, PAR80) (23085, PatHandTT) (23095, PatHandMG) (23100, PATRIOT) (23130, PattyCake) (23175, PawnCake) (23220, PBR4Rubin) (23240, PCS514) (23265, PeaSticks) (23295, PechoraSC) (23310, PeelCone) (23355, PeelGroup) (23400, PeelGroupA) (23445, PeelGroupB) (23450, PeelGroupMG) (23490, PeelPair) (23500, Pelena) (23515, PGZ07) (23525, Phalanx) (23529, PhazotronGukol4) (23530, PhazotronZhukAAE) (23535, Philips9LV200) (23580, Philips9LV331) (23625, PhilipsLV223) (23670, PhilipsSeaGiraffe50HC) (23675, PhimatJammer) (23680, PICOSAR) (23685, PILOTMK2) (23690, PinJib) (23695, PinTip) (23700, PL11) (23701, PL12) (23704, PL15) (23710, PlankShad) (23715, PlankShave) (23760, PlankShaveA) (23805, PlankShaveB) (23850, PlateSteer) (23895, PlesseyAWS1) (23925, PlesseyAWS2) (23940, PlesseyAWS4) (23985, PlesseyAWS6) (23990, PlesseyRJ) (24020, PlesseyType904) (24030, Plesseytype996) (24035, PlesseyAWS9) (24075, PlinthNet) (24095, Pluto) (24098, PNABRubinDownBeat) (24100, POHJANPALO) (24110, PolimentK) (24120, POLLUX) (24165, PotGroup) (24210, PotGroupMG) (24255, PotGroupTA) (24300, PotGroupTT) (24320, PorkFist) (24345, PorkTrough) (24385, PozitivME15P26) (24386, PositiveME1_2) (24390, PostBow) (24435, PostLamp) (24480, PotDrum) (24525, PotHead) (24535, PotShot) (24540, PraetorianCountermeasuresSuite) (24569, PRIMUS30A) (24570, PRIMUS40WXD) (24614, Primus400) (24615, PRIMUS300SL) (24616, Primus500) (24617, Primus650) (24618, Primus700) (24619, PRIMUS800) (24620, Primus3000) (24622, Primus870) (24630, PRORA) (24631, PRS2) (24633, PRS3Argon2) (24635, PRORAPA1660) (24640, PS15) (24650, PS05A) (24660, PS46A) (24705, PS70R) (24706, PS171R) (24707, PS860) (24709, PS870) (24710, PS890) (24720, PSM33) (24750, PuffBall) (24755, QuadradarVI) (24757, QW1A) (24758, Phazotron1RS21E) (24760, PVS200) (24761, PVS2000) (24768, R330ZH) (24769, R045) (24770, R76) (24771, R934B) (24772, RA20) (24774, RA723) (24775, R41XXX) (24776, RAC3D) (24780, RAC30) (24781, R423AM) (24795, Racal1229) (24800, DECCA1230) (24840, RacalAC2690BT) (24885, RacalDecca1216) (24890, RacalDECCA20V909) (24930, RacalDecca360) (24975, RacalDeccaAC1290) (25020, RacalDeccaTM1229) (25065, RacalDeccaTM1626) (25110, RacalDRBN34A) (25150, RADAMHR) (25155, Radar24) (25170, RADARPILOT1000) (25171, RADARPILOT1100) (25180, RAJENDRA) (25200, RAN7S) (25205, RAN10S) (25245, RAN11LX) (25250, Rani) (25259, RAPHAELTH) (25260, RapierTA) (25265, Rapier2000TA) (25270, RapierMG) (25273, RASCAR3400C) (25275, Rashmi) (25276, Rasit) (25277, Rasit3190B) (25278, RAT31DLM) (25279, RAT31DL) (25280, RAT31S) (25281, RAT8S) (25282, RAT31SL) (25283, RavenES05) (25285, RATAC) (25286, RAWL) (25287, Rattler) (25288, RAWS) (25289, RAWL02) (25290, Raytheon1220) (25291, RAWS03) (25292, Raytheon1210xx) (25300, Raytheon1302) (25335, Raytheon1500) (25380, Raytheon1645) (25425, Raytheon1650) (25470, Raytheon1900) (25515, Raytheon2502) (25530, RaytheonAnschutzNautoScanNX) (25540, RaytheonR41) (25545, RaytheonRM10256X) (25550, RaytheonSL72) (25560, RaytheonTM16506X) (25605, RaytheonTM166012S) (25630, RAY1220XR) (25635, RAY1401) (25650, Ray2900) (25694, RaymarineRD218) (25695, Raypath) (25698, RaytheonPathfinderSTmk2) (25735, RBE2) (25736, RBE2AA) (25739, RCT180) (25740, RDM) (25745, RDM3) (25750, RDI) (25760, RDY) (25762, RDY3) (25770, RDS86) (25785, RDN72) (25830, RDR1A) (25835, RDR1E) (25840, RDR4A) (25845, RDR150) (25850, RDR160XD) (25853, RDR230HP) (25855, RDR1100) (25860, RDR1150) (25875, RDR1200) (25885, RDR1400) (25890, RDR1400C) (25891, RDR4000_1) (25892, RDR4000_2) (25895, RDR1500) (25896, RiceCake) (25897, RDR1600) (25898, RDR2000) (25899, RDR1700B) (25900, Remora) (25901, RiceField) (25902, REC1A) (25903, REC1B) (25904, REC1C) (25906, ResolveEAS) (25907, RiceCupC) (25908, REL6E) (25909, REC1) (25910, RiceBowl) (25911, ImprovedReporter) (25912, RiceBug) (25915, RiceCup) (25920, RiceLamp) (25940, REVATHI) (25950, REZONANS) (25955, RGMUGM109B) (25958, RGMUGM109EHomingRadar) (25965, RicePad) (25966, RKL526) (25967, RKZ764) (25968, RKZ766) (25969, RKL165) (25970, RKL609) (25971, RKL800) (25972, RKZ761) (25973, RKZ2000) (25974, RIS4CA) (25975, RL2000) (25976, RL41) (25977, RIR778) (25978, RISAT) (25979, RLMS) (25980, RimHatESMECMSuite) (26008, RiceScoop) (26010, RiceScreen) (26011, DECCATM1070A) (26015, RM370BT) (26020, RockwellCollinsFMR200X) (26040, RM2312) (26041, RM23123) (26043, RMT0100A) (26045, RN222) (26053, ROLAND2) (26055, ROLANDBN) (26100, ROLANDMG) (26145, ROLANDTA) (26190, ROLANDTT) (26210, ROTODOME) (26235, RoundBall) (26236, RP379DTiradaD) (26237, RP3) (26238, RP4G) (26280, RoundHouse) (26325, RoundHouseB) (26326, RPR117) (26327, RS0250) (26328, RSR210N) (26330, RT0250) (26340, RTA4100) (26350, RTN1A) (26353, RTN25X) (26354, RTS6400) (26355, RubyRake) (26360, RumSling) (26361, RumSlingRO) (26362, RumSlingTT) (26370, RV2) (26415, RV3) (26460, RV5) (26505, RV10) (26506, RV15M) (26550, RV17) (26595, RV18) (26596, RV21) (26597, RV21B) (26600, RV25) (26610, RV377) (26640, RVUM) (26650, RWD8) (26660, RXN260) (26665, RyeHouse) (26670, S1810CD) (26672, Sahab) (26673, Salamandre) (26674, SamyungSMR7200) (26675, S1850M) (26676, S511) (26677, S512) (26678, S600) (26679, S604) (26680, S763LANZA3D) (26681, S613) (26682, S631) (26683, S654) (26684, S669) (26685, SA2Guideline) (26686, S244) (26687, S711) (26730, SA3Goa) (26775, SA8GeckoDT) (26795, SA12TELARILL) (26797, SA23TELIlluminator) (26799, SABERM60) (26805, Samovar) (26810, Sampson) (26820, SAN7GadflyTI) (26865, SAN11Cads1UN) (26900, SaccadeMH) (26910, SaltPotAB) (26920, SAP14) (26925, SAP518) (26926, SAP518M) (26930, SandBar) (26935, SAPechora2MTT) (26945, SAR) (26950, SATRAPE) (26955, SATURNEII) (27000, ScanCan) (27045, ScanFix) (27090, ScanOdd) (27095, SCANTER1002) (27100, SCANTER2001) (27101, SCANTER2002) (27102, SCANTER2100) (27109, SCANTER4002) (27110, SCANTER4100) (27111, SCANTER5102) (27113, SCANTER5502) (27115, SCANTER6000) (27116, SCANTER6002) (27125, ScanterMil009) (27135, ScanThree) (27137, SCANTERMILS) (27139, ScanterSMR) (27140, SCANTER) (27141, SCORADS) (27142, Scimitar) (27143, STAR2000) (27150, SCOREBOARD) (27175, ScoopPair) (27180, ScoupPlate) (27183, SCOUT) (27190, SCR584) (27225, SeaArcher2) (27230, SeaBasedXBand) (27235, SeaDragon) (27239, SeaEagle) (27240, SeaEagleSC) (27245, SEAFALCON) (27248, SeaGiraffeAMB) (27251, Seaguard) (27260, SeaHawkSHNX12) (27270, SeaHunter4MG) (27315, SeaHunter4TA) (27360, SeaHunter4TT) (27405, SeaGull) (27430, SeaMaster400) (27450, SeaNet) (27451, SeaSparrow) (27495, SeaSpray) (27540, SeaTiger) (27550, SeaTigerM) (27560, Seastar) (27570, Searchwater) (27575, Searchwater2000) (27580, SEASONDE) (27582, SEASPRAY7000E) (27583, SeaVue) (27584, SeasprayMk3) (27585, SeleniaOrion7) (27630, Seleniatype912) (27675, SelenniaRAN12LX) (27680, SeleniaRAN20S) (27720, SelenniaRTN10X) (27765, SeliniaARP1645) (27770, SENTIRM20) (27771, SERDAR) (27773, SERHAT) (27775, Series10CompactSubmarineRadarCSR) (27780, SERIES52) (27790, SERIES320) (27800, SG) (27802, SGJ02) (27803, SGJ03) (27810, SGR10200) (27855, SGR10302) (27870, SGR104) (27873, Shahed129SAR) (27875, SHAHINE) (27900, SheetBend) (27945, SheetCurve) (27980, SHIKRA) (27990, ShipGlobe) (28035, ShipWheel) (28080, SGR114) (28125, ShoreWalkA) (28170, ShortHorn) (28215, ShotDome) (28260, SideGlobeJN) (28280, PRV11) (28305, SideWalkA) (28350, SignaalDA02) (28395, SignaalDA05) (28440, SignaalDA08) (28445, SignaalDA082LS) (28480, SignaalLW04) (28485, SignaalLW08) (28530, SignaalLWOR) (28575, SignaalM45) (28620, SignaalMW08) (28665, SignaalSMART) (28710, SignaalSTING) (28755, SignaalSTIR) (28760, SignaalSTIR1_8M) (28770, SignaalSTIR24M) (28800, SignaalWM202) (28845, SignaalWM25) (28890, SignaalWM27) (28935, SignaalWM28) (28980, SignaalZW01) (29025, SignaalZW06) (29030, SignaalZW07) (29035, SignaalZW0800) (29043, SIMRAD3G) (29045, SIMRAD4G) (29050, SimradCA54) (29060, SIMRADHalo6) (29070, SkiPole) (29115, SkinHead) (29160, SkipSpin) (29172, SKYFENDER) (29175, SkyWave) (29180, SkyguardB) (29185, SKYGUARDTA) (29190, SKYGUARDTT) (29191, SkyguardLR) (29200, Skymaster) (29205, SkyWatch) (29210, SkyRanger) (29215, SKYSHADOW) (29220, SKYSHIELDTA) (29250, SL) (29270, SLALQ234) (29295, SlapShot) (29297, SlapShotG) (29300, SLC2) (29301, SLC2E) (29305, SLC4) (29340, SlimNet) (29385, SlotBackA) (29400, SlotBackILL) (29430, SlotBackB) (29431, SlotBackIV) (29432, SlotBackBTopaz) (29433, SlotBackE) (29434, SlotBackG) (29435, SlotBackVI) (29440, SlotRest) (29450, SM674AUPM) (29475, SMA3RM) (29520, SMA3RM20) (29565, SMA3RM20ASMG) (29610, SMABPS704) (29655, SMASPIN749V2) (29700, SMASPN703) (29745, SMASPN751) (29790, SMASPOS748) (29835, SMASPQ2) (29880, SMASPQ2D) (29925, SMASPQ701) (29970, SMASPS702) (30015, SMAST2OTOMATIIMH) (30016, SR47A) (30060, SMA718Beacon) (30065, SmallFred) (30068, SMARTS) (30069, SMARTSMk2) (30070, SMARTL) (30072, SM932) (30075, SmogLamp) (30080, SnapShot) (30105, SnoopDrift) (30140, SnoopHalf) (30150, SnoopHead) (30195, SnoopPair) (30200, SnoopPing1) (30240, SnoopPlate) (30255, SnoopPing) (30285, SnoopSlab) (30330, SnoopTray) (30375, SnoopTray1) (30420, SnoopTray2) (30421, SNOOPTRAY3) (30465, SnoopWatch) (30470, _9S18M1) (30471, _9S18M1E) (30475, SPB7) (30480, SnowDrop) (30490, SNW10) (30510, SO1) (30520, SO12) (30555, SOACommunist) (30580, SO69) (30600, SockEye) (30645, SOM64) (30650, Sopka) (30660, Sorbsiya) (30661, SorbtsiyaL005) (30662, SorbtsiyaL005S) (30665, SPADASIR) (30670, SPADATT) (30690, SparrowILL) (30691, SPERRYRASCAR) (30692, SPECTRA) (30696, SPEAR3MMW) (30700, SperryM3) (30701, SPERRYVISIONMASTERFT) (30710, SPEXER2000) (30735, SPG53F) (30780, SPG70) (30825, SPG74) (30870, SPG75) (30915, SPG76) (30960, SpinScanA) (31005, SpinScanB) (31050, SpinTrough) (31070, SPINODADDAWTR) (31080, SPJ40) (31095, SplashDrop) (31096, SPN2) (31097, SPN4) (31100, SPN30) (31140, SPN35A) (31185, SPN41) (31230, SPN42) (31275, SPN43A) (31320, SPN43B) (31365, SPN44) (31410, SPN46) (31455, SPN703) (31475, SPN720) (31500, SPN7281) (31545, SPN748) (31590, SPN750) (31592, SPO8) (31593, SPN753G) (31635, SpongeCake) (31680, P12) (31681, P18SpoonRestA) (31682, P18SpoonRestB) (31684, P18SpoonRestC) (31685, P18MH2) (31700, SporkRest) (31725, SPQ712) (31730, SPR2) (31740, SPR51) (31765, SPS5FASOL) (31766, SPS6) (31770, SPS6C) (31815, SPS10F) (31860, SPS12) (31870, SPS22NBUKET) (31875, SPS33NBUKET) (31880, SPS44NBUKET) (31890, SPS55NBUKET) (31905, SPS58) (31925, SPS62) (31935, SPS100K) (31950, SPS64) (31951, SPS141) (31952, SPS142) (31953, SPS143) (31955, SPS151) (31956, SPS152) (31957, SPS153) (31959, SPS160Geran) (31960, SPS161) (31970, SPS95K) (31971, SPS171Jammer) (31972, SPS172Jammer) (31995, SPS768) (32010, SPS540K) (32020, SPS550KMF) (32040, SPS774) (32085, SPY790) (32130, SquareHead) (32175, SquarePair) (32220, SquareSlot) (32265, SquareTie) (32310, Shmel) (32330, P15M) (32355, SquintEye) (32365, SQUIRE) (32373, SR2410C) (32375, SR47BG) (32385, SREM5) (32400, SRN6) (32445, SRN15) (32455, SRN206) (32490, SRN745) (32535, SRO1) (32580, SRO2) (32625, SSC2BSamletMG) (32670, SSN2ABCSSC) (32715, SSN2ABCSSC2A3A2MH) (32760, SSN2CSeeker) (32805, SSN2CDStyx) (32850, SSN2CDStyxCDMH) (32851, SSN2CStyxAL) (32852, SSN2DStyxAL) (32895, SSN2SSCSSC18BN) (32940, SSN3BSepalAL) (32985, SSN3BSepalMH) (33025, SSN7Starbright) (33030, SSN9Siren) (33075, SSN9SirenAL) (33120, SSN9SirenMH) (33125, SSN10AFL10mmWMH) (33140, SSN11Nasr1mmWMH) (33165, SSN12SandboxAL) (33166, SSN12YJ83JmmWMH) (33210, SSN12SandboxMH) (33230, SSNX13Shredder) (33231, SSN14BSilexAL) (33255, SSN19Shipwreck) (33300, SSN19ShipwreckAL) (33345, SSN19ShipwreckMH) (33390, SSN21AL) (33435, SSN22Sunburn) (33480, SSN22SunburnMH) (33481, SSN22SunburnAL) (33483, SSN25SwitchbladeMH) (33484, SSN26StrobileMMWMH) (33485, SSN27SizzlerMH) (33486, SSN27ASizzlerAL) (33505, STINGEOMk2) (33510, STIR1_2EOMk2) (33511, STIR2_4HPMk2) (33525, StoneCake) (33570, STR41) (33580, ST858) (33582, START1M) (33584, STENTOR) (33585, StormShadowAHR) (33586, STRAIGHTFLUSH) (33590, StraightFlushTA) (33595, StraightFlushTT) (33600, StraightFlushILL) (33615, StrikeOut) (33660, StrutCurve) (33705, StrutPair) (33750, StrutPair1) (33795, StrutPair2) (33840, SunVisor) (33850, SUPERDARN) (33860, Superfledermaus) (33870, Supersearcher) (33885, SwiftRod1) (33930, SwiftRod2) (33933, SYMPHONY) (33935, SYNAPSISMk2) (33950, SY80) (33975, T1166) (34020, T1171) (34040, T1202) (34065, T6004) (34110, T6031) (34155, T8067) (34200, T8068) (34245, T8124) (34290, T8408) (34335, T8911) (34380, T8937) (34425, T8944) (34470, T8987) (34480, TA10K) (34500, JY11B) (34505, TACANSURF) (34515, P14_2) (34516, TALLKINGB) (34517, TALLKINGC) (34560, TallMike) (34605, TallPath) (34607, TDR94) (34610, TeaSpoon) (34620, TeamPlay) (34624, TALISMAN) (34625, TeamWork) (34626, T1135) (34627, TANCANSURF) (34628, TECSAR) (34629, TERRASARX) (34630, TESAR) (34640, THAADGBR) (34644, ThalesRDY2) (34645, ThalesNederlandSignaalAPAR) (34646, ThalesScorpionJammer) (34647, ThalesVariant) (34648, ThalesICMSJammer) (34649, ThalesIMEWSJammer) (34650, THD225) (34655, THD1012) (34660, THD1098) (34665, THD1213) (34670, THD1940) (34680, THD1955Palmier) (34695, THD5500) (34700, ThirdofKhordad) (34740, ThinPath) (34785, PRV9) (34786, PRV16) (34795, ThompsonCSFTA10) (34830, ThompsonCSFTHD1040Neptune) (34875, ThompsonCSFCalypso) (34920, ThompsonCSFCASTOR) (34965, ThompsonCSFCastorII) (34966, ThomsonCSFDomino30) (35010, ThompsonCSFDRBC32A) (35055, ThompsonCSFDRBJ11DE) (35100, ThompsonCSFDRBV15A) (35145, ThompsonCSFDRBV15C) (35190, ThompsonCSFDRBV22D) (35235, ThompsonCSFDRBV23B) (35280, ThompsonCSFDRUA33) (35325, ThompsonCSFMarsDRVB21A) (35370, ThompsonCSFSeaTiger) (35415, ThompsonCSFTriton) (35460, ThompsonCSFVegawithDRBC32E) (35470, ThomsonENR) (35475, ThomsonRDI) (35477, TierIIPlus) (35478, TPS755) (35479, TPS830K) (35480, TRS2105) (35481, TR23K) (35482, TR23MR) (35483, TRAC2100) (35484, TRAC2300) (35485, HT223) (35486, TRADEX) (35487, TRAILXI) (35488, TRD1211) (35489, TRD1235) (35490, TRS2100) (35491, TRACNG) (35505, TieRods) (35550, _36D6) (35570, TinTrap) (35580, TIRSPONDER) (35583, TK25E5) (35585, TMKMk2) (35586, TMXMk2) (35595, ToadStool1) (35640, ToadStool2) (35685, ToadStool3) (35730, ToadStool4) (35775, ToadStool5) (35785, TokenB) (35800, TombStone) (35810, Tonson) (35820, TopBow) (35865, TopDome) (35910, TopKnot) (35955, TopMesh) (36000, TopPair) (36045, TopPlate) (36046, TopPlateB) (36090, TopSail) (36120, TYPE208) (36135, TopSteer) (36180, TopTrough) (36200, TornadoGMR) (36201, TornadoTFR) (36220, ScrumHalfTA) (36225, ScrumHalfTT) (36226, TORM2TER) (36230, ScrumHalfMG) (36270, TrackDish) (36300, TR47C) (36315, TORSOM) (36320, TQN2) (36360, TrapDoor) (36365, TRD1500) (36370, TrickShotTAR) (36371, TrickShotTER) (36380, TRISPONDE) (36381, TRML) (36382, TRS2215) (36383, TRML3D) (36384, TRMS) (36385, TRS2056) (36386, TRS3010) (36387, TRS2060) (36388, TRS2245) (36389, TRS2310) (36390, TritonG) (36391, TRS22XX) (36400, TRS3030) (36405, TRS3033) (36417, TRS3203) (36420, TRS3405) (36425, TRS3410) (36430, TRS3415) (36440, TRS3D) (36441, TRS3D16) (36442, TRS3D16ES) (36443, TRS3D32) (36446, TRS4D) (36447, TRSC) (36450, TRSN) (36460, TS4478A) (36495, TSE5000) (36540, TSR333) (36550, TSR793) (36563, TubBrick) (36585, TubeArm) (36590, TW1374) (36595, TW1378) (36600, TW1446) (36630, TwinEyes) (36675, TwinPill) (36720, TwinScan) (36765, TwinScanRo) (36810, TwoSpot) (36821, Type071LPD) (36827, Type212JA) (36830, Type221JA) (36835, Type223) (36836, Type80ASM1) (36838, Type120) (36840, Type208) (36843, Type222) (36846, Type226) (36850, Type232H) (36853, TYPE245) (36855, TYPE262) (36900, TYPE275) (36905, TYPE278) (36945, TYPE293) (36946, Type341) (36947, TYPE313) (36948, Type305A) (36960, Type334) (36985, Type342) (36990, TYPE343SUNVISORB) (36992, Type344) (37010, Type345) (37011, Type346) (37033, Type349A) (37035, TYPE347B) (37038, Type347G) (37039, Type359) (37040, Type352) (37041, Type360) (37043, Type362ESR1SR47B) (37045, Type354) (37047, Type366) (37048, Type363) (37049, Type364) (37050, Type404A) (37052, Type405) (37053, TYPE405J) (37058, Type408D) (37059, Type517B) (37060, Type518) (37070, Type589) (37073, TYPE651) (37075, Type753_1) (37077, Type702) (37078, Type704) (37079, Type753_2) (37080, Type756) (37081, TYPE713) (37082, TYPE714) (37083, TYPE702D) (37084, TYPE760) (37086, Type760) (37090, Type815) (37095, Type793) (37100, Type8A813) (37105, TYPE901M) (37110, TYPE902) (37124, Type902B) (37125, TYPE903) (37170, TYPE909TI) (37215, TYPE909TT) (37260, TYPE910) (37265, TYPE931) (37305, TYPE965) (37350, TYPE967) (37395, TYPE968) (37440, TYPE974) (37485, TYPE975) (37530, TYPE978) (37534, Type981) (37535, Type9813) (37540, TYPE982) (37543, Type984) (37544, Type985) (37575, TYPE992) (37620, TYPE993) (37665, TYPE994) (37670, Type996) (37675, Type997Artisan) (37710, TYPE1006_1) (37755, TYPE1006_2) (37800, TYPE1022) (37810, Type1047) (37815, Type1048) (37825, Type1474) (37828, Type1493) (37840, ULTRA) (37845, UKMK10) (37850, UPS220C) (37890, UPX110) (37935, UPX27) (37980, URN20) (37985, UTESA) (37990, UTEST) (38025, URN25) (38035, VIGILANT) (38038, VitebskL370Jammer) (38045, VOLEXIIIIV) (38046, VOLGA) (38047, VORONEZHDM) (38048, VOSTOK) (38049, VOSTOKE) (38050, VSR) (38051, VOSTOK3D) (38055, VSTARPT) (38058, W160) (38060, W1028) (38070, W8818) (38115, W8838) (38120, W8852) (38140, WALLBOARD) (38150, WallRust) (38160, WAS74S) (38205, WaspHead) (38210, WATCHDOG) (38250, WatchGuard) (38260, Watchman) (38270, WAVESTORM) (38275, WATCHMANS) (38276, WATCHMANT) (38280, WEATHERSCOUT2) (38295, WesternElectricMK10) (38320, WestinghouseADR4LRSR) (38340, WestinghouseElectricSPG50) (38385, WestinghouseElectricW120) (38430, WestinghouseSPS29C) (38475, WestinghouseSPS37) (38520, WetEye) (38525, WetEye2) (38565, WetEyeMod) (38568, WF44S) (38570, WGU41B) (38572, WGU44B) (38610, Whiff) (38655, WhiffBrick) (38700, WhiffFire) (38715, WHITEHOUSE) (38730, WideMat) (38735, WineGlassJammer) (38745, WildCard) (38748, WILDCAT) (38790, WitchEight) (38835, WitchFive) (38840, WLR) (38880, WM2XSeries) (38925, WM2XSeriesCAS) (38930, WR10X) (38935, WR2100) (38950, WSR74C) (38955, WSR74S) (38957, WSR81) (38960, WXR700C) (38965, WXR2100) (38966, WXR2100MSTT) (38970, WoodGage) (38990, XTAR25) (38995, XTAR3D) (39000, YAOGAN3) (39014, Yaogan29) (39015, YardRake) (39050, YH96) (39060, YewLoop) (39061, YITIANADS) (39062, YD3) (39063, YJ12MH) (39065, YJ62MH) (39066, YJ82MH) (39067, YJ83MH) (39070, YLC2) (39071, YLC2A) (39073, YLC4) (39074, YLC6) (39075, YLC6M) (39080, YLC8) (39081, YLC8B) (39085, YLC18) (39105, YoYo) (39110, ZaslonA) (39112, ZaslonMultipurpose) (39125, ZooPark1) (39126, ZPS6) (39127, ZOOPARK3) (39131, ZD12) (39150, ZW06) (39200, ANALQ1361) (39201, ANALQ1362) (39202, ANALQ1363) (39203, ANALQ1364) (39204, ANALQ1365) (39210, ANALQ1622) (39211, ANALQ1623) (39212, ANALQ1624) (45300, ZhukM) (45303, ZHUKMAE) (45304, ZHUKME) (45305, ZHUKMME) (45307, ZhukMSE));
conv_enum!(EmitterSystemFunction, u8; (0, Other) (1, MultiFunction) (2, EarlyWarningSurveillance) (3, HeightFinder) (4, FireControl) (5, AcquisitionDetection) (6, Tracker) (7, GuidanceIllumination) (8, FiringPointLaunchPointLocation) (9, RangeOnly) (10, RadarAltimeter) (11, Imaging) (12, MotionDetection) (13, Navigation) (14, WeatherMeteorological) (15, Instrumentation) (16, IdentificationClassification) (17, AAAFireControl) (18, AirSearchBomb) (19, AirIntercept) (20, Altimeter) (21, AirMapping) (22, AirTrafficControl) (23, Beacon) (24, BattlefieldSurveillance) (25, GroundControlApproach) (26, GroundControlIntercept) (27, CoastalSurveillance) (28, DecoyMimic) (29, DataTransmission) (30, EarthSurveillance) (31, GunLayBeacon) (32, GroundMapping) (33, HarborSurveillance) (34, IFF) (35, InstrumentLandingSystem) (36, IonosphericSound) (37, Interrogator) (38, BarrageJamming) (39, ClickJamming) (40, DeceptiveJamming) (41, FrequencySweptJamming) (42, Jammer) (43, NoiseJamming) (44, PulsedJamming) (45, RepeaterJamming) (46, SpotNoiseJamming) (47, MissileAcquisition) (48, MissileDownlink) (49, Meteorological) (50, Space) (51, SurfaceSearch) (52, ShellTracking) (56, Television) (57, Unknown) (58, VideoRemoting) (59, ExperimentalOrTraining) (60, MissileGuidance) (61, MissileHoming) (62, MissileTracking) (64, JammingNoise) (65, JammingDeception) (66, Decoy) (71, NavigationDistanceMeasuringEquipment) (72, TerrainFollowing) (73, WeatherAvoidance) (74, ProximityFuse) (75, Instrumentation_) (76, Radiosonde) (77, Sonobuoy) (78, BathythermalSensor) (79, TowedCounterMeasure) (80, DippingSonar) (81, TowedAcousticSensor) (96, WeaponNonlethal) (97, WeaponLethal) (98, TestEquipment) (99, AcquisitionTrack) (100, TrackGuidance) (101, GuidanceIlluminationTrackAcquisition) (102, SearchAcquisition) (103, Dropsonde));
conv_enum!(ElectromagneticEmissionStateUpdateIndicator, u8; (0, HeartbeatUpdate) (1, ChangedDataUpdate));
conv_enum!(ElectromagneticEmissionBeamFunction, u8; (0, Other) (1, Search) (2, HeightFinding) (3, Acquisition) (4, Tracking) (5, Acquisitionandtracking) (6, Commandguidance) (7, Illumination) (8, Ranging) (9, Missilebeacon) (10, MissileFusing) (11, Activeradarmissileseeker) (12, Jamming) (13, IFF) (14, NavigationWeather) (15, Meteorological) (16, Datatransmission) (17, Navigationaldirectionalbeacon) (20, TimeSharedSearch) (21, TimeSharedAcquisition) (22, TimeSharedTrack) (23, TimeSharedCommandGuidance) (24, TimeSharedIllumination) (25, TimeSharedJamming));
conv_enum!(HighDensityTrackJam, u8; (0, NotSelected) (1, Selected));
conv_enum!(DesignatorSystemName, u16; (0, NotSpecified) (1000, ANAAQ4) (1100, ANAAQ7) (1200, ANAAQ8) (1300, ANAAQ14LANTIRN) (1400, ANAAQ19) (1500, ANAAQ22ASAFIRE) (1600, ANAAQ22BSAFIRELP) (1700, ANAAQ22CStarSAFIREI) (1800, ANAAQ22DBRITEStar) (1900, ANAAQ24DIRCMNemesis) (2000, ANAAQ25LTS) (2100, ANAAQ28LITENINGII) (2200, ANAAQ30) (2300, ANAAQ32) (2400, ANAAQ33Sniper) (2500, ANAAQ37) (2600, ANAAQ38) (2650, ANAAQ40) (2700, ANAAS32) (2800, ANAAS35V) (2900, ANAAS37) (3000, ANAAS38) (3100, ANAAS44) (3200, ANAAS46) (3300, ANAAS49) (3400, ANAAS51) (3500, ANAAS52MTSA) (3600, ANALQ10) (3700, ANASQ228) (4400, ANAVQ25) (4500, ANAVQ26) (4600, ANGVS5) (4700, ANPED1LLDR) (4800, TADSLRFD) (4900, MMSLRFD) (5000, AH1CNITE) (5100, MATES) (5200, TCV115) (5300, TIM) (5400, TMS303) (5500, TMY303) (5600, ALRAD) (5700, RFTDL) (5800, VVLR) (6000, P0705HELL) (6100, P0708PULSE) (6200, HELD) (6300, TYPE105) (6400, TYPE118) (6500, TYPE121) (6600, TYPE126) (6700, TYPE629) (6800, CLDS) (6900, TAV38) (7000, TMV630) (7100, ALTM1020) (7200, ALATS) (7300, DarkStarLAMPS) (7400, GLTDII) (7500, MBTELRF) (7600, MarkVII) (7700, SIREV) (7800, ANAAQ16B) (7900, ANAAQ16DAESOP) (8000, ANAAQ21StarSAFIREIII) (8100, ANAAQ22EBRITEStar) (8200, ANAAQ36StarSAFIREII) (8300, ANAAS38ANiteHawk) (8400, ANAAS38BNiteHawk) (8500, ANAAS44C) (8600, ANAAS53CSP) (8700, ANASQ28ATFLIR) (8800, ANDAS1MTSB) (8900, ANPAQ1LTD) (9000, ANPAQ3MULE) (9090, ANPEQ1SOFLAM) (9100, ANPEQ3) (9140, ANPEQ15ATPIAL) (9150, ANPEQ18IZLID1000P) (9200, ANTVQ2GVLLD) (9300, ANZSQ21EOS) (9400, ANZSQ22EOS) (9500, CIRCM) (9600, Guardian) (9700, IZLID200P) (9800, IZLID1000PW) (9900, MMS) (10000, MTADSPNVSArrowhead) (10100, RBS70) (10200, RBS90) (10300, TADSPNVS) (10400, COLIBRI) (10500, Damocles) (10600, I251Shkval) (10700, KPS53AVEOTS) (10800, StarSAFIRE380) (10900, JANUSTEOS) (11000, LOTHAREOS) (11100, MK46MOD1EOS) (11200, MTK201MEEOS) (11300, ThalesMiradorMk2EOS) (11400, TPN1M4923EOS));
conv_enum!(DesignatorCode, u16; (0, Other));
conv_enum!(IFFSystemType, u16; (0, NotUsed) (1, MarkXXIIATCRBSTransponder) (2, MarkXXIIATCRBSInterrogator) (3, SovietTransponder) (4, SovietInterrogator) (5, RRBTransponder) (6, MarkXIIAInterrogator) (7, Mode5Interrogator) (8, ModeSInterrogator) (9, MarkXIIATransponder) (10, Mode5Transponder) (11, ModeSTransponder) (12, MarkXIIACombinedInterrogatorTransponder) (13, MarkXIICombinedInterrogatorTransponder) (14, TCASACASTransceiver));
conv_enum!(IFFSystemName, u16; (0, NotUsed) (1, GenericMarkX) (2, GenericMarkXII) (3, GenericATCRBS) (4, GenericSoviet) (5, GenericModeS) (6, GenericMarkXXIIATCRBS) (7, GenericMarkXXIIATCRBSModeS) (8, ARI5954) (9, ARI5983) (10, GenericRRB) (11, GenericMarkXIIA) (12, GenericMode5) (13, GenericMarkXIIACombinedInterrogatorTransponder) (14, GenericMarkXIICombinedInterrogatorTransponder) (15, GenericTCASIACASITransceiver) (16, GenericTCASIIACASIITransceiver) (17, GenericMarkXA) (18, GenericMarkXSIF));
conv_enum!(IFFSystemMode, u8; (0, NoStatement) (1, Off) (2, Standby) (3, Normal) (4, Emergency) (5, LoworLowSensitivity));
conv_enum!(IFFLayerSpecificInformation, u8; (0, NoLayerSpecificInformationIsPresent));
conv_enum!(IFFAlternateMode4ChallengeReply, u8; (0, NoStatement) (1, Valid) (2, Invalid) (3, Noresponse) (4, UnabletoVerify));
conv_enum!(IFFSystemType1OperationalParameter1, u8; (0, NoOperationalParameter1Data));
conv_enum!(IFFSystemType1OperationalParameter2, u8; (0, NoOperationalParameter2Data));
conv_enum!(SubcategoriesforLandCategory200Mammal, u8; (1, SmallDog) (2, Chihuahua) (10, MediumDog) (11, AustralianCattleDog) (20, LargeDog) (21, GermanShepherd) (30, VeryLargeDog) (31, GiantTurkishKangal) (40, Sheep) (41, Goat) (50, Pig) (60, Cow) (61, Ox) (70, OxWithCart) (80, Horse) (81, Donkey) (82, Mule) (90, HorseWithRider) (91, HorseWithCargo) (92, DonkeyWithRider) (93, DonkeyWithCargo) (94, MuleWithRider) (95, MuleWithCargo) (100, Camel) (101, DromedaryCamel) (102, BactrianCamel) (110, DromedaryCamelWithRider) (111, DromedaryCamelWithCargo) (200, Rat));
conv_enum!(SubcategoriesforLandCategory201Reptile, u8; (1, NewZealandNorthernTuatara) (3, Monitor) (8, Gecko) (13, Iguana) (17, Chameleon) (30, NonVenomousSnake) (31, Boa) (35, Python) (39, Bullsnake) (43, Kingsnake) (60, VenomousSnake) (61, Rattlesnake) (62, Copperhead) (63, Cottonmouth) (64, Taipan) (65, Viper) (66, Cobra) (67, AustralianBrownSnake) (90, Tortoise) (100, Turtle) (120, AmericanAlligator) (121, Crocodile) (122, AustralianFreshwaterCrocodile));
conv_enum!(SubcategoriesforLandCategory202Amphibian, u8; (1, Frog) (2, Toad) (170, Salamander) (230, Caecilian));
conv_enum!(SubcategoriesforLandCategory203Insect, u8; (1, Beetle) (60, Mantis) (70, Cockroach) (80, ArmyAnt) (81, FireAnt) (90, Grasshopper) (100, Centipede));
conv_enum!(SubcategoriesforLandCategory204Arachnid, u8; (1, Spider) (20, Tick) (30, Scorpion) (40, Harvestmen) (50, Mite));
conv_enum!(SubcategoriesforLandCategory205Mollusk, u8; (1, Snail) (50, Slug));
conv_enum!(SubcategoriesforLandCategory206Marsupial, u8; (1, BrownFourEyedOpossum) (2, BushyTailedOpossum) (90, TatesShrewOpossum) (100, GreaterBilby) (110, TasmanianDevil) (150, BrushTailedRockWallaby) (160, EasternWallaroo) (170, RedKangaroo) (200, QueenslandKoala) (205, SouthernHairyNosedWombat) (210, BrushtailPossum) (211, SugarGlider));
conv_enum!(SubcategoriesforAirCategory200Bird, u8; (1, Penguin) (2, Seagull) (3, Pelican) (4, Albatross) (5, Swan) (6, Cormorant) (7, Heron) (8, Crane) (9, Osprey) (10, Loon) (11, Stork) (12, Flamingo) (13, Duck) (20, Ostrich) (21, Emu) (22, Chicken) (30, BlackBird) (31, Starling) (32, Budgerigar) (40, CanadianGoose) (41, Crow) (50, Eagle) (55, Vulture) (60, Falcon) (65, Hawk) (70, Owl) (80, Kite));
conv_enum!(SubcategoriesforAirCategory201Insect, u8; (1, Moth) (2, Butterfly) (20, Fly) (30, Mosquito) (40, Wasp) (50, Bee) (60, Beetle) (70, Dragonfly) (80, Locust));
conv_enum!(SubcategoriesforAirCategory202Mammal, u8; (1, Bat) (10, FlyingSquirrel) (20, GlidingPossum));
conv_enum!(SubcategoriesforSubsurfaceCategory200Fish, u8; (1, ForageFishSmallSchooling) (2, Herring) (3, Sardines) (4, Krill) (5, Squid) (30, MediumSchoolingFish) (31, Hake) (32, Cod) (33, Haddock) (34, Mackerel) (60, LargeSchoolingFish) (61, Tuna) (90, SmallShark) (91, DogfishShark) (120, MediumShark) (121, MakoShark) (122, HammerheadShark) (150, LargeShark) (151, GreatWhiteShark) (152, TigerShark) (153, BlueShark) (154, WhaleShark) (180, Skate) (181, Stingray) (190, Eel) (200, Marlin) (201, Swordfish));
conv_enum!(SubcategoriesforSubsurfaceCategory201Mammal, u8; (1, Whale) (2, BeakedWhale) (3, BelugaWhale) (4, BlueWhale) (5, BottlenoseWhale) (6, NorthernBottlenoseWhale) (7, SouthernBottlenoseWhale) (8, BowheadWhale) (9, BrydesWhale) (10, DwarfSpermWhale) (11, FinbackWhale) (12, GrayWhale) (13, HumpbackWhale) (14, LongFinnedPilotWhale) (15, MinkeWhale) (16, NorthernMinkeWhale) (17, SouthernMinkeWhale) (18, NarwhalWhale) (19, OrcaWhale) (20, PygmySpermWhale) (21, RightWhale) (22, NorthAtlanticRightWhale) (23, NorthPacificRightWhale) (24, SouthernRightWhale) (25, SeiWhale) (26, ShortFinnedPilotWhale) (27, SpermWhale) (50, Dolphin) (51, BottlenoseDolphin) (52, BottlenoseIndoPacificDolphin) (53, BottlenoseBurrunanDolphin) (54, AtlanticSpottedDolphin) (55, AustralianSnubfinDolphin) (56, ChileanBlackDolphin) (57, ChineseWhiteDolphin) (58, ClymeneDolphin) (100, Porpoise) (101, HarbourPorpoise) (102, CalifornianPorpoise) (103, DallsPorpoise) (104, BurmeistersPorpoise) (120, Seal) (121, BeardedSeal) (122, HarborSeal) (123, FurSeal) (124, WeddellSeal) (125, ElephantSeal) (130, SeaLion) (131, AustralianSeaLion) (132, CaliforniaSeaLion) (140, Walrus) (141, AtlanticWalrus) (142, PacificWalrus) (150, Otter) (151, SeaOtter) (160, Manatee) (161, FloridaManatee) (162, Dugongs) (200, PolarBear));
conv_enum!(SubcategoriesforSubsurfaceCategory202Mollusk, u8; (1, Snail) (10, Slug) (20, Octopus) (30, Squid) (40, Cuttlefish) (50, Clam) (60, Muscle) (70, Oyster) (80, Scallop));
conv_enum!(SubcategoriesforSubsurfaceCategory203Crustacean, u8; (1, Shrimp) (2, SnappingShrimp) (10, Crayfish) (20, Lobster) (30, Crab));
conv_enum!(SubcategoriesforSubsurfaceCategory204Insect, u8; (1, SeaSkater) (2, WaterBeetle));
conv_enum!(AnimalLifeformGroupSizeRangeEnumerationforallDomains, u8; (201, Numberofanimalsrangefrom201to249) (202, Numberofanimalsrangefrom250to299) (203, Numberofanimalsrangefrom300to399) (204, Numberofanimalsrangefrom400to499) (205, Numberofanimalsrangefrom500to999) (206, Numberofanimalsrangefrom1000to1499) (207, Numberofanimalsrangefrom1500to1999) (208, Numberofanimalsrangefrom2000to2999) (210, Numberofanimalsrangefrom3000to4999) (212, Numberofanimalsrangefrom5000to6999) (214, Numberofanimalsrangefrom7000to9999) (216, Numberofanimalsrangefrom10000to19999) (218, Numberofanimalsrangefrom20000to50000) (220, Numberofanimalsrangegreaterthan50000));
conv_enum!(SpecificDimensionEnumerationsforLandAreaSize, u8; (222, SmallArea) (223, SmallAreaDense) (224, MediumArea) (225, MediumAreaDense) (226, LargeArea) (227, LargeAreaDense));
conv_enum!(SpecificDimensionEnumerationsforAirAreaSize, u8; (222, SmallFlockSwarm) (223, SmallFlockSwarmDense) (224, MediumFlockSwarm) (225, MediumFlockSwarmDense) (226, LargeFlockSwarm) (227, LargeFlockSwarmDense));
conv_enum!(AddSpecificDimensionEnumerationsforSubsurfaceAreaSize, u8; (222, SmallSchool) (223, SmallSchoolDense) (224, MediumSchool) (225, MediumSchoolDense) (226, LargeSchool) (227, LargeSchoolDense));
conv_enum!(AddVariantsforLandCategory200Mammal, u8; (1, AnimalwithaMaleChildRider) (2, AnimalwithaFemaleChildRider) (3, AnimalwithanAdultMaleRider) (4, AnimalwithanAdultFemaleRider) (5, AnimalHarnessedtoaPlow) (6, AnimalHarnessedtoaCart));
conv_enum!(VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids, u8; (1, Black) (2, Green) (3, Spotted) (4, Red) (5, Brown));
conv_enum!(VariantsforAirCategory200Bird, u8; (1, BirdwithFish) (2, VPatternFlockShape) (3, CircularFlockShape) (4, IrregularFlockShape));
conv_enum!(AddVariantsforAirCategory201Insect, u8; (1, VerticalShapedInsectSwarm) (2, CircularShapedInsectSwarm) (3, IrregularShapedInsectSwarm));
conv_enum!(AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect, u8; (1, Black) (2, Green) (3, Spotted) (4, Red) (5, Brown) (6, Blue) (7, Silver) (8, Grey));
conv_enum!(VariantsforSubsurfaceCategory201Mammal, u8; (1, Singing) (2, Spouting));
conv_enum!(UAStateChangeUpdateIndicator, u8; (0, StateUpdate) (1, ChangedDataUpdate));
conv_enum!(UAAcousticSystemName, u16; (0, Other) (1, ANBQQ5) (2, ANSSQ62) (3, ANSQS23) (4, ANSQS26) (5, ANSQS53) (6, ALFS) (7, LFA) (8, ANAQS901) (9, ANAQS902));
conv_enum!(UAAcousticEmitterSystemFunction, u8; (0, Other) (1, Platformsearchdetecttrack) (2, Navigation) (3, Minehunting) (4, Weaponsearchdetecttrackdetect));
conv_enum!(UAActiveEmissionParameterIndex, u16; (0, Other));
conv_enum!(UAScanPattern, u16; (0, Scanpatternnotused) (1, Conical) (2, Helical) (3, Raster) (4, Sectorsearch) (5, Continuoussearch));
conv_enum!(UAPassiveParameterIndex, u16; (0, Other));
conv_enum!(UAAdditionalPassiveActivityParameterIndex, u16; (0, Other));
conv_enum!(TransmitterMajorModulation, u16; (0, NoStatement) (1, Amplitude) (2, AmplitudeandAngle) (3, Angle) (4, Combination) (5, Pulse) (6, Unmodulated) (7, CarrierPhaseShiftModulation) (8, SATCOM));
conv_enum!(TransmitterDetailAmplitudeModulation, u16; (0, Other) (1, AFSK) (2, AM) (3, CW) (4, DSB) (5, ISB) (6, LSB) (7, SSBFull) (8, SSBReduc) (9, USB) (10, VSB));
conv_enum!(TransmitterDetailAmplitudeandAngleModulation, u16; (0, Other) (1, AmplitudeandAngle));
conv_enum!(TransmitterDetailAngleModulation, u16; (0, Other) (1, FM) (2, FSK) (3, PM) (4, MSK));
conv_enum!(TransmitterDetailCombinationModulation, u16; (0, Other) (1, AmplitudeAnglePulse));
conv_enum!(TransmitterDetailPulseModulation, u16; (0, Other) (1, Pulse) (2, XBandTACANPulse) (3, YBandTACANPulse));
conv_enum!(TransmitterDetailUnmodulatedModulation, u16; (0, Other) (1, ContinuousWaveemissionofanunmodulatedcarrier));
conv_enum!(TransmitterDetailCarrierPhaseShiftModulation, u16; (0, Other));
conv_enum!(TransmitterModulationTypeSystem, u16; (0, Other) (1, GenericRadioorSimpleIntercom) (2, HAVEQUICKI) (3, HAVEQUICKII) (4, SATURN) (5, SINCGARS) (6, CCTTSINCGARS) (7, EPLRS) (8, JTIDSMIDS) (9, Link11) (10, Link11B) (11, LBandSATCOM) (12, EnhancedSINCGARS7_3) (13, NavigationAid));
conv_enum!(TransmitterTransmitState, u8; (0, Off) (1, Onbutnottransmitting) (2, Onandtransmitting));
conv_enum!(TransmitterInputSource, u8; (0, Other) (1, Pilot) (2, Copilot) (3, FirstOfficer) (4, Driver) (5, Loader) (6, Gunner) (7, Commander) (8, DigitalDataDevice) (9, Intercom) (10, AudioJammer) (11, DataJammer) (12, GPSJammer) (13, GPSMeaconer) (14, SATCOMUplinkJammer));
conv_enum!(TransmitterCryptoSystem, u16; (0, NoEncryptionDevice) (1, KY28) (2, KY58) (3, NarrowSpectrumSecureVoice) (4, WideSpectrumSecureVoice) (5, SINCGARSICOM) (6, KY75) (7, KY100) (8, KY57) (9, KYV5) (10, Link11KG40AP) (11, Link11BKG40AS) (12, Link11KG40AR) (13, KGV135A) (14, TacticalSecureVoice));
conv_enum!(TransmitterAntennaPatternType, u16; (0, Isotropic) (1, Beam) (2, Sphericalharmonic) (4, TransmitterRadiationVolume) (5, BeamandTransmitterRadiationVolume) (6, Omnidirectional));
conv_enum!(TransmitterAntennaPatternReferenceSystem, u8; (1, WorldCoordinates) (2, EntityCoordinates));
conv_enum!(CCTTSINCGARSStartofMessage, u8; (0, Notstartofmessage) (1, StartofMessage));
conv_enum!(CCTTSINCGARSClearChannel, u8; (0, Notclearchannel) (1, Clearchannel));
conv_enum!(TimeSlotAllocationLevel, u8; (0, LowFidelityLevel0) (1, LowFidelityLevel1) (2, MediumFidelityLevel2) (3, MediumFidelityLevel3) (4, HighFidelityLevel4));
conv_enum!(JTIDSMIDSModulationParametersTransmittingTerminalPrimaryMode, u8; (1, NTR) (2, JTIDSUnitParticipant));
conv_enum!(JTIDSMIDSModulationParametersTransmittingTerminalSecondaryMode, u8; (0, None) (1, NetPositionReference) (2, PrimaryNavigationController) (3, SecondaryNavigationController));
conv_enum!(JTIDSMIDSModulationParametersSynchronizationState, u8; (0, NoStatement) (1, InitialNetEntry) (2, CoarseSynchronization) (3, FineSynchronization) (4, SynchronizationMaintenance));
conv_enum!(MessageTypeIdentifier, u8; (0, JTIDSHeaderMessages) (1, RTTAB) (2, RTTReply) (3, JTIDSVoiceCVSD) (4, JTIDSVoiceLPC10) (5, JTIDSVoiceLPC12) (6, JTIDSLET) (7, VMF));
conv_enum!(SignalUserProtocolIdentificationNumber, u32; (1, CCSIL) (5, A2ATDSINCGARSERF) (6, A2ATDCAC2) (20, BattleCommand) (30, AFIWCIADSTrackReport) (31, AFIWCIADSCommC2Message) (32, AFIWCIADSGroundControlInterceptorCommand) (35, AFIWCVoiceTextMessage) (177, ModSAFTextRadio) (200, CCTTSINCGARSERFLOCKOUT) (201, CCTTSINCGARSERFHOPSET) (202, CCTTSINCGARSOTAR) (203, CCTTSINCGARSDATA) (546, ModSAFFWAForwardAirController) (832, ModSAFThreatADAC3) (1000, F16MTCAFAPDProtocol) (1100, F16MTCIDLProtocol) (1371, AutomaticIdentificationSystem) (4570, ModSAFArtilleryFireControl) (5361, AGTS) (6000, GC3) (6010, WNCPdata) (6020, Spokentextmessage) (6661, LongbowIDMmessage) (6662, ComancheIDMmessage) (6663, LongbowAirborneTACFIREMessage) (6664, LongbowGroundTACFIREMessage) (6665, LongbowAFAPDMessage) (6666, LongbowERFmessage) (7000, VMFIDM) (7010, CSARRadioSurvivorMessage) (7020, CSARRadioInterrogatorMessage) (7030, ImageFileTransferMessage) (7040, GeotagDataMessage) (7050, TacticalVideoRegenerationData));
conv_enum!(SignalTDLType, u16; (0, Other) (1, PADIL) (2, NATOLink1) (3, ATDL1) (4, Link11B) (5, SituationalAwarenessDataLink) (6, Link16LegacyFormatJTIDSTADILJ) (7, Link16LegacyFormatJTIDSFDLTADILJ) (8, Link11) (9, IJMS) (10, Link4A) (11, Link4C) (12, TIBS) (13, ATL) (14, ConstantSource) (15, AbbreviatedCommandandControl) (16, MILSTAR) (17, ATHS) (18, OTHGOLD) (19, TACELINT) (20, WeaponsDataLink) (21, AbbreviatedCommandandControl_) (22, EnhancedPositionLocationReportingSystem) (23, PositionLocationReportingSystem) (24, SINCGARS) (25, HAVEQUICKI) (26, HAVEQUICKII) (27, SATURN) (28, IntraFlightDataLink1) (29, IntraFlightDataLink2) (30, ImprovedDataModem) (31, AirForceApplicationProgramDevelopment) (32, CooperativeEngagementCapability) (33, ForwardAreaAirDefense) (34, GroundBasedDataLink) (35, IntraVehicularInfoSystem) (36, MarineTacticalSystem) (37, TacticalFireDirectionSystem) (38, IntegratedBroadcastService) (39, AirborneInformationTransfer) (40, AdvancedTacticalAirborneReconnaissanceSystemDataLink) (41, BattleGroupPassiveHorizonExtensionSystemDataLink) (42, CommonHighBandwidthDataLink) (43, GuardrailInteroperableDataLink) (44, GuardrailCommonSensorSystemOneDataLink) (45, GuardrailCommonSensorSystemTwoDataLink) (46, GuardrailCSS2MultiRoleDataLink) (47, GuardrailCSS2DirectAirtoSatelliteRelayDataLink) (48, LineofSight) (49, LightweightCDL) (50, L52M) (51, RivetReachRivetOwlDataLink) (52, SeniorSpan) (53, SeniorSpur) (54, SeniorStretch_) (55, SeniorYearInteroperableDataLink) (56, SpaceCDL) (57, TR1modeMISTAirborneDataLink) (58, KubandSATCOMDataLinkImplementation) (59, MissionEquipmentControlDatalink) (60, RadarDataTransmittingSetDataLink) (61, SurveillanceandControlDataLink) (62, TacticalUAVVideo) (63, UHFSATCOMDataLinkImplementation) (64, TacticalCommonDataLink) (65, LowLevelAirPictureInterface) (66, WeaponsDataLinkAGM130) (67, AutomaticIdentificationSystemAIS) (68, WeaponsDataLinkAIM120) (69, WeaponsDataLinkAIM9) (70, WeaponsDataLinkCAMM) (99, GC3) (100, Link16StandardizedFormat) (101, Link16EnhancedDataRate) (102, JTIDSMIDSNetDataLoad) (103, Link22) (104, AFIWCIADSCommunicationsLinks) (105, F22IntraFlightDataLink) (106, LBandSATCOM) (107, TSAFCommunicationsLink) (108, EnhancedSINCGARS7_3) (109, F35MultifunctionAdvancedDataLink) (110, CursoronTarget) (111, AllPurposeStructuredEurocontrolSurveillanceInformationExchange) (112, VariableMessageFormat) (113, Link16SurrogateforNonNATOTDL) (114, MQ19CBandLOSUplink) (115, MQ19CBandLOSDownlink) (116, MQ19KuBandSATCOMUplink) (117, MQ19KuBandSATCOMDownlink) (118, WeaponsDatalinkSDBII) (119, JTACSAUplink) (120, CommonInteractiveBroadcast) (121, JointRangeExtensionApplicationProtocolA) (125, JPALSDataLink) (126, OneSAFIADSCommunicationsLink) (127, TacticalTargetingNetworkTechnologyApplication));
conv_enum!(ReceiverReceiverState, u16; (0, Off) (1, Onbutnotreceiving) (2, Onandreceiving));
conv_enum!(IntercomControlControlType, u8; (0, Reserved) (1, Status) (2, RequestAcknowledgeRequired) (3, RequestNoAcknowledge) (4, AckRequestGranted) (5, NackRequestDenied));
conv_enum!(IntercomControlCommunicationsType, u8; (0, Reserved) (1, ConnectionFDX) (2, ConnectionHDXDestinationisReceiveOnly) (3, ConnectionHDXDestinationisTransmitOnly) (4, ConnectionHDX));
conv_enum!(IntercomControlCommand, u8; (0, NoCommand) (1, Status) (2, Connect) (3, Disconnect) (4, Reset) (5, On) (6, Off));
conv_enum!(IntercomControlTransmitLineState, u8; (0, TransmitLineStatenotapplicable) (1, NotTransmitting) (2, Transmitting));
conv_enum!(IntercomControlDestinationLineStateCommand, u8; (0, None) (1, SetLineStateTransmitting) (2, SetLineStateNotTransmitting) (3, ReturntoLocalLineStateControl));
conv_enum!(IntercomControlRecordType, u16; (1, SpecificDestinationrecord) (2, GroupDestinationrecord) (3, GroupAssignmentrecord));
conv_enum!(CollisionType, u8; (0, Inelastic) (1, Elastic) (55, BoomNozzleHasClearedTheReceiversRefuelingReceptacle));
conv_enum!(MinefieldSensorTypes, u8; (0, Other) (1, Optical) (2, FLIR) (3, RADAR) (4, Magnetic) (5, Laser) (6, SONAR) (7, Physical) (8, Multispectral));
conv_enum!(MinefieldSensorTypesOptical, u16; (0, UnaidedEyeActivelySearching) (1, UnaidedEyeNotActivelySearching) (2, Binoculars) (3, ImageIntensifier) (4, HMMWVoccupantActivelySearching) (5, HMMWVoccupantNotActivelySearching) (6, TruckoccupantActivelySearching) (7, TruckoccupantNotActivelySearching) (8, TrackedvehicleoccupantclosedhatchActivelySearching) (9, TrackedvehicleoccupantclosedhatchNotActivelySearching) (10, TrackedvehicleoccupantopenhatchActivelySearching) (11, TrackedvehicleoccupantopenhatchNotActivelySearching));
conv_enum!(MinefieldSensorTypesFLIR, u16; (0, Generic35) (1, Generic812) (2, ASTAMIDSI) (3, ASTAMIDSII) (4, GSTAMIDS35) (5, GSTAMIDS812) (6, HSTAMIDS35) (7, HSTAMIDS812) (8, COBRA35) (9, COBRA812));
conv_enum!(MinefieldSensorTypesRADAR, u16; (0, Generic) (1, GenericGPR) (2, GSTAMIDSI) (3, GSTAMIDSII) (4, HSTAMIDSI) (5, HSTAMIDSII));
conv_enum!(MinefieldSensorTypesMagnetic, u16; (0, Generic) (1, ANPSS11) (2, ANPSS12) (3, GSTAMIDS));
conv_enum!(MinefieldSensorTypesLaser, u16; (0, Generic) (1, ASTAMIDS));
conv_enum!(MinefieldSensorTypesSONAR, u16; (0, Generic));
conv_enum!(MinefieldSensorTypesPhysical, u16; (0, GenericProbe) (1, ProbeMetalContent) (2, ProbeNoMetalContent));
conv_enum!(MinefieldSensorTypesMultispectral, u16; (0, Generic));
conv_enum!(AggregateStateAggregateState, u8; (0, Other) (1, Aggregated) (2, Disaggregated) (3, Fullydisaggregated) (4, Pseudodisaggregated) (5, Partiallydisaggregated));
conv_enum!(AggregateStateFormation, u32; (0, Other) (1, Assembly) (2, Vee) (3, Wedge) (4, Line) (5, Column));
conv_enum!(AggregateStateAggregateKind, u8; (0, Other) (1, MilitaryHierarchy) (2, CommonType) (3, CommonMission) (4, SimilarCapabilities) (5, CommonLocation));
conv_enum!(AggregateStateSubcategory, u8; (0, Other) (1, CavalryTroop) (2, Armor) (3, Infantry) (4, MechanizedInfantry) (5, Cavalry) (6, ArmoredCavalry) (7, Artillery) (8, SelfPropelledArtillery) (9, CloseAirSupport) (10, Engineer) (11, AirDefenseArtillery) (12, AntiTank) (13, ArmyAviationFixedwing) (14, ArmyAviationRotarywing) (15, ArmyAttackHelicopter) (16, AirCavalry) (17, ArmorHeavyTaskForce) (18, MotorizedRifle) (19, MechanizedHeavyTaskForce) (20, CommandPost) (21, CEWI) (22, Tankonly));
conv_enum!(AggregateStateSpecific, u8; (0, Noheadquarters) (1, Yesaggregateunitcontainsaheadquarters));
conv_enum!(IsPartOfNature, u16; (0, Other) (1, Hostfireablemunition) (2, Munitioncarriedascargo) (3, Fuelcarriedascargo) (4, Gunmountattachedtohost) (5, Computergeneratedforcescarriedascargo) (6, Vehiclecarriedascargo) (7, Emittermountedonhost) (8, Mobilecommandandcontrolentitycarriedaboardhost) (9, Entitystationedatpositionwithrespecttohost) (10, Teammemberinformationwith));
conv_enum!(IsPartOfPosition, u16; (0, Other) (1, Ontopof) (2, Insideof));
conv_enum!(IsPartOfStationName, u16; (0, Other) (1, AircraftWingstation) (2, ShipsForwardGunmountStarboard) (3, ShipsForwardGunmountPort) (4, ShipsForwardGunmountCenterline) (5, ShipsAftGunmountStarboard) (6, ShipsAftGunmountPort) (7, ShipsAftGunmountCenterline) (8, ForwardTorpedoTube) (9, AftTorpedoTube) (10, BombBay) (11, CargoBay) (12, TruckBed) (13, TrailerBed) (14, WellDeck) (15, OnStationRangeandBearing) (16, OnStationxyz) (17, AirtoAirRefuelingBoom) (18, AerialRefuelingReceptacle) (19, PortSideRefuelingDrogue) (20, StarboardSideRefuelingDrogue) (21, CenterRefuelingDrogue) (22, AirRefuelingProbe));
conv_enum!(IsGroupOfGroupedEntityCategory, u8; (0, Undefined) (1, BasicGroundCombatVehicle) (2, EnhancedGroundCombatVehicle) (3, BasicGroundCombatSoldier) (4, EnhancedGroundCombatSoldier) (5, BasicRotorWingAircraft) (6, EnhancedRotorWingAircraft) (7, BasicFixedWingAircraft) (8, EnhancedFixedWingAircraft) (9, GroundLogisticsVehicle));
conv_enum!(IsGroupOfRestStatus, u8; (0, Notrested) (1, Hassleptanaverageof1hourperdayinthelastthreedays_) (2, Hassleptanaverageof2hoursperdayinthelastthreedays_) (3, Hassleptanaverageof3hoursperdayinthelastthreedays_) (4, Hassleptanaverageof4hoursperdayinthelastthreedays_) (5, Hassleptanaverageof5hoursperdayinthelastthreedays_) (6, Hassleptanaverageof6hoursperdayinthelastthreedays_) (7, Hassleptanaverageof7hoursperdayinthelastthreedays_) (8, Fullyrested));
conv_enum!(TransferControlTransferType, u8; (0, Other) (1, PushTransferEntity) (2, AutomaticPullTransferEntity) (4, PushTransferEnvironmentalProcess) (5, AutomaticPullTransferEnvironmentalProcess) (7, CancelTransfer) (8, ManualPullTransferEntity) (9, ManualPullTransferEnvironmentalProcess) (10, RemoveEntity));
conv_enum!(ObjectKind, u8; (0, Other) (1, Obstacle) (2, PreparedPosition) (3, CulturalFeature) (4, Passageway) (5, TacticalSmoke) (6, ObstacleMarker) (7, ObstacleBreach) (8, EnvironmentalObject));
conv_enum!(GriddedDataCoordinateSystem, u16; (0, RightHandedCartesian) (1, LeftHandedCartesian) (2, LatitudeLongitudeHeight) (3, LatitudeLongitudeDepth));
conv_enum!(GriddedDataConstantGrid, u8; (0, Constantgrid) (1, Updatedgrid));
conv_enum!(GriddedDataSampleType, u8; (0, NotSpecified));
conv_enum!(GriddedDataDataRepresentation, u8; (0, Type0) (1, Type1) (2, Type2));
conv_enum!(EnvironmentalProcessModelType, u8; (0, NoStatement));
conv_enum!(EnvironmentalProcessRecordType, u32; (256, COMBICState) (259, FlareState) (65536, BoundingSphereRecord) (327680, UniformGeometryRecord) (655360, PointRecord1) (786432, LineRecord1) (851968, SphereRecord1) (1048576, EllipsoidRecord1) (3145728, ConeRecord1) (5242880, RectangularVolumeRecord1) (83886080, RectangularVolumeRecord3) (167772160, PointRecord2) (201326592, LineRecord2) (218103808, SphereRecord2) (268435456, EllipsoidRecord2) (805306368, ConeRecord2) (1342177280, RectangularVolumeRecord2) (1610612736, GaussianPlumeRecord) (1879048192, GaussianPuffRecord));
conv_enum!(SignalEncodingClass, u8; (0, Encodedaudio) (1, RawBinaryData) (2, ApplicationSpecificData) (3, Databaseindex));
conv_enum!(SignalEncodingType, u8; (1, _8bitmulaw) (2, CVSD) (3, ADPCM) (4, _16bitLinearPCM2sComplementBigEndian) (5, _8bitLinearPCMUnsigned) (6, VQ) (8, GSMFullRate) (9, GSMHalfRate) (10, SpeexNarrowBand) (11, Opus) (12, LPC10) (100, _16bitLinearPCM2sComplementLittleEndian));
conv_enum!(RepairGroups, u8; (0, GeneralRepairCodes) (1, DriveTrain) (2, HullAirframeBody) (3, InterfacesWithEnvironment) (4, Weapons) (5, FuelSystems) (6, Electronics) (7, LifeSupportSystems) (8, HydraulicSystemsAndActuators) (9, AuxiliaryCraft));
conv_enum!(EnvironmentRecordTypeGroups, u8; (0, State) (1, Geometry));
conv_enum!(PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories, u8; (1, HangGliderUnpowered) (2, HangGliderPowered) (3, ParagliderUnpowered) (4, ParagliderPowered) (5, PoweredParachute));
conv_enum!(PlatformAirCivilianUltralightRigidWingAircraftSubcategories, u8; (1, Weightshiftcontrol) (2, Controlsurfacecontrol));
conv_enum!(PlatformAirCivilianGliderSubcategories, u8; (1, SailPlane) (2, MotorGlider));
conv_enum!(PlatformAirCivilianFixedWingAircraftSubcategories, u8; (11, SinglePistonEngine) (12, TwinPistonEngine) (21, SingleEngineTurboprop) (22, TwinEngineTurboprop) (24, FourEngineTurboprop) (32, TwinJet) (33, TriJet) (34, FourEngineJet));
conv_enum!(PlatformAirCivilianHelicopterSubcategories, u8; (11, SingleRotorPistonEngine) (12, SingleRotorTurboshaftEngineConventionalTailRotor) (13, SingleRotorTurboshaftEngineShroudedTailRotor) (14, SingleRotorTurboshaftEngineNoTailRotor) (21, TandemRotor) (22, CoaxialRotor) (23, IntermeshingRotor));
conv_enum!(PlatformAirCivilianLighterthanAirBalloonSubcategories, u8; (1, Gasfilledfree) (2, Gasfilledtethered) (3, HotAir) (4, RoziereBalloon) (5, Helikite));
conv_enum!(PlatformAirCivilianLighterthanAirAirshipSubcategories, u8; (1, Nonrigid) (2, Semirigid) (3, Rigid) (4, Hybrid));
conv_enum!(APAParameterIndexAPAStatus, u8; (0, DeselectedOff) (1, APAValueChangeOnly) (2, StateChange) (3, RecordActivation));
conv_enum!(SeparationVPReasonforSeparation, u8; (0, NoStatement) (1, AttachedPartSeparation) (2, SubmunitionSeparation));
conv_enum!(SeparationVPPreEntityIndicator, u8; (0, NoStatement) (1, EntityIDExistedPriortoSeparationwithoutEntityStatePDU) (2, EntityIDExistedPriortoSeparationwithEntityStatePDUIssued) (3, EntityInitiallyCreatedAtSeparationEvent));
conv_enum!(IOActionIOWarfareType, u16; (0, NoStatement) (1, ElectronicWarfare) (2, ComputerNetworkOperations) (3, PsychologicalOperations) (4, MilitaryDeception) (5, OperationsSecurity) (6, PhysicalAttack));
conv_enum!(IOActionIOSimulationSource, u16; (0, NoStatement));
conv_enum!(IOActionIOActionType, u16; (0, NoStatement) (1, IOAttackProfileData) (2, IOAttackComputedEffects) (3, IntentBasedEW) (4, IntentBasedEWComputedEffects));
conv_enum!(IOActionIOActionPhase, u16; (0, NoStatement) (1, StartAttackProfile) (2, EndAttackProfile) (3, ContinueAttackProfilewithChanges) (4, StartAttackEffects) (5, EndAttackedEffects) (6, ContinueAttackEffectswithChanges));
conv_enum!(IOReportIOReportType, u8; (0, NoStatement) (1, InitialReport) (2, UpdateReport) (3, FinalReport));
conv_enum!(IOEffectsRecordIOStatus, u8; (0, NoStatement) (1, EffectonSender) (2, EffectonReceiver) (3, EffectonSenderandReceiver) (4, EffectonMessage) (5, EffectonSenderandMessage) (6, EffectonReceiverandMessage) (7, EffectonSenderReceiverandMessage));
conv_enum!(IOEffectsRecordIOLinkType, u8; (0, NoStatement) (1, LogicalLink) (2, PhysicalNode) (3, PhysicalLink));
conv_enum!(IOEffectsRecordIOEffect, u8; (0, NoStatement) (1, Denial) (2, Degradation) (3, Disruption) (255, TerminateEffect));
conv_enum!(IOEffectsRecordIOProcess, u8; (0, NoStatement));
conv_enum!(IOCommsNodeRecordCommsNodeType, u8; (0, NoStatement) (1, SenderNodeID) (2, ReceiverNodeID) (3, SenderReceiverNodeID));
conv_enum!(DISAttributeActionCode, u8; (0, NoStatement));
conv_enum!(DRParametersType, u8; (0, None) (1, LocalEulerAngles) (2, WorldOrientationQuaternion));
conv_enum!(HighFidelityHAVEQUICKTODTransmitIndicator, u8; (0, NoTODIsBeingTransmitted) (1, TODTransmissioninProgress));
conv_enum!(NETIDRecordMode, u8; (1, AHAVEQUICKIorHAVEQUICKIICOMBAT) (2, BSATURNCOMBAT) (3, TTRAINING));
conv_enum!(NETIDRecordFrequencyTable, u8; (0, HQIOperations) (1, HQIINATOEuropeAreaOperations) (2, HQIINonNATOEuropeAreaOperations) (3, SATURNOperations));
conv_enum!(EEAttributeStateIndicator, u8; (0, HeartbeatUpdate) (1, ChangedData) (2, HasCeased));
conv_enum!(TransferredEntityIndicator, u8; (0, NoDifference) (1, Difference));
conv_enum!(LVCIndicator, u8; (0, NoStatement) (1, Live) (2, Virtual) (3, Constructive));
conv_enum!(CoupledExtensionIndicator, u8; (0, NotCoupled) (1, Coupled));
conv_enum!(FireTypeIndicator, u8; (0, Munition) (1, Expendable));
conv_enum!(DetonationTypeIndicator, u8; (0, Munition) (1, Expendable) (2, NonMunitionExplosion));
conv_enum!(RadioAttachedIndicator, u8; (0, NoStatement) (1, Unattached) (2, Attached));
conv_enum!(IntercomAttachedIndicator, u8; (0, NoStatement) (1, Unattached) (2, Attached));
conv_enum!(PduStatusIFFSimulationMode, u8; (0, Regeneration) (1, Interactive));
conv_enum!(ExplosiveMaterialGroups, u8; (0, General) (1, LiquidAviationMissileFuels) (2, LiquidOtherFuels) (3, LiquidExplosiveMaterial) (4, Solid) (5, Gaseous) (6, DustMaterial));
conv_enum!(ExplosiveMaterialCategories, u16; (0, NoStatement) (10, AVGAS) (11, JetFuel) (12, JP4) (13, JP5) (14, JP7) (15, JP8) (16, JP10MissileFuel) (17, JPTS) (18, JetA) (19, JetA1) (20, JetB) (21, JetBiofuel) (151, GasolinePetrolUnspecifiedOctane) (152, DieselFuelUnspecifiedGrade) (153, Ethanol) (154, E85Ethanol) (155, FuelOil) (156, Kerosene) (157, CrudeOil) (158, LightCrudeOil) (159, LiquidPetroleumGas) (160, RP1RocketFuel) (161, LH2RocketFuel) (162, LOXRocketFuel) (164, Alcohol) (166, HydrogenLiquid) (301, Nitroglycerin) (302, ANFO) (451, Dynamite) (452, TNT) (453, RDX) (454, PETN) (455, HMX) (456, C4) (457, CompositionC4) (601, NaturalGas) (602, Butane) (603, Propane) (604, Helium) (605, HydrogenGaseous) (801, DustUnspecifiedType) (802, GrainDust) (803, FlourDust) (804, SugarDust));
conv_enum!(DEPrecisionAimpointBeamSpotType, u8; (0, Other) (1, Gaussian) (2, TopHat));
conv_enum!(DEFirePulseShape, u8; (0, Other) (1, SquareWave) (2, ContinuousWave) (3, Gaussian));
conv_enum!(ComponentIdentification, u8; (0, EntityCenter) (1, EntityStructure) (2, ControlSystem) (3, ControlSurface) (4, EnginePropulsionSystem) (5, CrewMember) (6, Fuse) (7, AcquisitionSensor) (8, TrackingSensor) (9, FuelTankSolidRocketMotor));
conv_enum!(ComponentDamageStatus, u8; (0, NoDamage) (1, MinorDamage) (2, MediumDamage) (3, MajorDamage) (4, Destroyed));
conv_enum!(ComponentVisualSmokeColor, u8; (0, NoSmoke) (1, White) (2, Gray) (3, Black));
conv_enum!(BeamStatusBeamState, u8; (0, Active) (1, Deactivated));
conv_enum!(EntityAssociationAssociationStatus, u8; (0, NotSpecified) (1, PhysicalAssociationGeneralObject1) (2, FunctionalAssociationGeneral) (3, AssociationBroken) (4, PhysicalAssociationObject2) (5, FunctionalAssociationObject1) (6, FunctionalAssociationObject2));
conv_enum!(EntityVPRecordChangeIndicator, u8; (0, InitialReportorNoChangeSinceLastIssuance) (1, ChangeSinceLastIssuance));
conv_enum!(EntityAssociationGroupMemberType, u8; (0, NotPartofaGroup) (1, GroupLeader) (2, GroupMember) (3, FormationLeader) (4, FormationMember) (5, ConvoyLeader) (6, ConvoyMember));
conv_enum!(PhysicalAssociationTypeGroups, u8; (0, NotSpecified) (1, TowedMountedSlingLoad) (2, Restrained) (3, Mission) (4, OtherConnections));
conv_enum!(EntityAssociationPhysicalAssociationType, u8; (0, NotSpecified) (1, TowedinAir) (2, TowedonLand) (3, TowedonWaterSurface) (4, TowedUnderwater) (5, MountedAttached) (6, MountedUnattachedandUnsupported) (7, MountedUnattachedandSupported) (8, TowedinAirCenterHook) (9, TowedinAirForwardHook) (10, TowedinAirAftHook) (11, TowedinAirTandemHookForeAndAft) (12, TowedinAirMismanagedTandemForeAndCenter) (13, TowedinAirMismanagedTandemCenterAndAft) (14, TowedinAirAllHooks) (15, Hoisted) (30, RestrainedtoaLifeform) (31, RestrainedtoaPlatform) (32, RestrainedtoanObject) (61, RefuelingOperation) (62, SearchandRescueBasket) (63, SearchandRescueRescueCollar) (64, EngagementObject2isBeingEngaged) (65, ReturnToBaseObject2istheDestinationObject) (90, LinebetweenCommunicationTowers) (91, LineBetweenPowerTowers) (92, Indoors) (93, TopSurface));
conv_enum!(EntityAssociationPhysicalConnectionType, u8; (0, NotSpecified) (1, AttachedDirectlytoSurface) (2, CableWire) (3, Rope) (4, Chain) (5, PowerLine) (6, TelephoneLine) (7, CableLine) (8, RefuelingDrogue) (9, RefuelingBoom) (10, Handcuffs) (11, InContactWith) (12, FastRope));
conv_enum!(SensorRecordSensorTypeOtherActiveSensors, u8; (0, Undefined));
conv_enum!(SensorRecordSensorTypePassiveSensors, u16; (60000, ALR400) (60001, ANAAR47) (60002, ANAAR50) (60003, ANAAR54) (60004, ANAAR56) (60005, ANAAR57) (60006, ANALQ142) (60007, ANALR45) (60008, ANALR46) (60009, ANALR56) (60010, ANALR59) (60011, ANALR64) (60012, ANALR66) (60013, ANALR67) (60014, ANALR69) (60015, ANALR73) (60016, ANALR76) (60017, ANALR91) (60018, ANALR93) (60019, ANALR94) (60020, ANALR801) (60021, ANAPR39) (60022, ANAYR2) (60023, ARI18223) (60024, BOW21) (60025, ChaparralIRST) (60026, FlankerIRST) (60027, FoxbatIRST) (60028, FoxhoundIRST) (60029, FulcrumIRST) (60030, HavocIRST) (60031, HindIRST) (60032, KJ200) (60033, KJ8602) (60034, L150Pastel) (60035, Serval) (60036, Sherloc) (60037, Sherlocvf) (60038, Sirena2) (60039, Sirena3) (60040, Sirena3M) (60041, SkyGuardian) (60042, SPO15) (60043, SPS200) (60044, Tarang) (60045, ANAAQ29A) (60046, _101KSUMAW) (60047, Abrams2GFFLIR) (60048, Abrams3GFFLIR) (60049, ANAAQ13LANTIRNFLIR) (60050, AN_ALR74) (60051, AN_ALR90) (60052, ANAPR48) (60053, ELT156X) (60054, _101KSV) (60055, TP23ML) (60056, GenericFLIR) (60057, GenericIRST) (60058, GenericMAWS) (60059, GenericRWR) (60060, L136Mak) (60061, LeonardoSASSIRST) (60062, OSFIRST) (60063, PirateIRST) (60064, RECCELITE) (60065, ThalesNederlandSiriusIRST) (60066, TornadoRWR) (60067, TOES521FLIR) (60068, SafranVampir_MB));
conv_enum!(MunitionExpendableStatus, u8; (0, Other) (1, Ready) (2, Inventory));
conv_enum!(FuelMeasurementUnits, u8; (0, Other) (1, Liter) (2, Kilogram));
conv_enum!(FuelLocation, u8; (0, Other));
conv_enum!(EntityAssociationAssociationType, u8; (0, Other) (1, TargetEntity) (2, TargetLocation) (3, HomeBaseLocation) (4, CAPPointLocation) (5, FlightLeader) (6, FlightMember) (7, IPPoint) (8, RendezvousPoint) (9, OnStationLocation) (10, LandingZoneLocation) (11, DownedPilot) (12, TankerEntitythatIsCurrentlyRefuelingtheTransferredEntity) (13, TankerEntitytheTransferredEntityIsHeadedtowardstoRefuel) (14, EntityHeadedtowardstoJoinUpWith));
conv_enum!(SensorOnOffStatus, u8; (0, Off) (1, On));
conv_enum!(OwnershipStatus, u8; (0, Other) (1, NewOwner) (2, OwnershipQueryResponse) (3, OwnershipConflict) (4, LocalEntityCancelledAutoResolveConflict) (5, LocalEntityCancelledManualResolveConflict) (6, LocalEntityCancelledRemoveEntityTCRReceived));
conv_enum!(RecordREventType, u8; (0, Other));
conv_enum!(RecordQueryREventType, u16; (0, Periodic) (1, InternalEntityStateData));
conv_enum!(UAPropulsionPlantConfigurationConfiguration, u8; (0, Other) (1, DieselElectric) (2, Diesel) (3, Battery) (4, TurbineReduction) (6, Steam) (7, GasTurbine));
conv_enum!(MinefieldStateProtocolMode, u16; (0, HeartbeatMode) (1, QRPMode));
conv_enum!(TransponderInterrogatorIndicator, u8; (0, Transponder) (1, Interrogator));
conv_enum!(IFFSimulationMode, u8; (0, Regeneration) (1, Interactive));
conv_enum!(IFFApplicableModes, u8; (0, NoApplicableModesData) (1, AllModes));
conv_enum!(ModeCAltitudeIndicator, u8; (0, PositiveAltitudeAboveMSL) (1, NegativeAltitudeBelowMSLUseAlternateModeCAltitude));
conv_enum!(TCASACASBasicAdvancedIndicator, u8; (0, Basic) (1, Advanced));
conv_enum!(TCASACASIndicator, u8; (0, TCAS) (1, ACAS));
conv_enum!(TCASACASSoftwareVersion, u8; (0, NoStatement) (1, _6_0_2) (2, _7_0));
conv_enum!(TCASACASType, u8; (0, NoStatement) (1, ACASI) (2, ACASII));
conv_enum!(TCASIIIType, u8; (0, TCASI) (1, TCASII));
conv_enum!(Mode5IFFMission, u8; (0, NoStatement) (1, SurveillanceSHORAD) (2, SHORADassociatedwithaWeaponsSystem) (3, WeaponSystem) (4, AirborneandSurfaceSurveillancePlatforms) (5, AirborneandSurfaceWeaponsPlatforms) (6, GroundtoGround));
conv_enum!(ModeSInterrogatorStatusTransmitState, u8; (0, NoStatement) (1, RollCall) (2, AllCall) (3, LockoutOverride) (4, TemporaryLockout) (5, IntermittentLockout));
conv_enum!(ModeSInterrogatorIdentifierICType, u8; (0, II) (1, SI));
conv_enum!(ISLSAntennaType, u8; (0, NoStatement) (1, MonopulseAntenna));
conv_enum!(Mode5Reply, u8; (0, NoResponse) (1, Valid) (2, Invalid) (3, UnabletoVerify));
conv_enum!(AntennaSelection, u8; (0, NoStatement) (1, Top) (2, Bottom) (3, Diversity));
conv_enum!(Mode5SquitterType, u8; (0, NotCapable) (1, Short) (2, Extended));
conv_enum!(Level2SquitterStatus, u8; (0, Disabled) (1, Enabled));
conv_enum!(ModeSSquitterType, u8; (0, NotCapable) (1, Acquisition) (2, Extended) (3, Short));
conv_enum!(ModeSSquitterRecordSource, u8; (0, Layer4IFFDataRecords) (1, Layer5GICBIFFDataRecords));
conv_enum!(AircraftPresentDomain, u8; (0, NoStatement) (1, Airborne) (2, OnGroundSurface));
conv_enum!(AircraftIdentificationType, u8; (0, NoStatement) (1, FlightNumber) (2, TailNumber));
conv_enum!(CapabilityReport, u8; (0, NoCommunicationsCapability) (4, SignifiesatLeastCommAandCommBCapabilityandAbilitytoSetCACode7andontheGround) (5, SignifiesatLeastCommAandCommBcapabilityandAbilitytoSetCACode7andAirborne) (6, SignifiesatLeastCommAandCommBcapabilityandAbilitytoSetCACode7andEitherAirborneorontheGround) (7, SignifiestheDownlinkRequestFieldEquals234or5andEitherAirborneorontheGround) (255, NoStatement));
conv_enum!(NavigationSource, u8; (0, NoStatement) (1, GPS) (2, INS) (3, INSGPS));
conv_enum!(IFFDataRecordAvailable, u8; (0, ComputeLocally) (1, IFFDataRecordAvailable));
conv_enum!(Mode5SAltitudeResolution, u8; (0, _100foot) (1, _25foot));
conv_enum!(DeltaMode5SAltitudePositiveNegativeIndicator, u8; (0, Positive) (1, Negative));
conv_enum!(FormatType, u8; (0, NoData) (4, IdentityFormat) (5, SurfaceFormat5meterRNP) (6, SurfaceFormat100meterRNP) (7, AirborneFormat5meterRNP25footBarometricAltitude) (8, AirborneFormat100meterRNP25footBarometricAltitude) (9, AirborneFormat0_25nmiRNP25footBarometricAltitude) (10, AirborneFormat1_0nmiRNP25footBarometricAltitude) (11, AirborneFormat5meterRNP100footBarometricAltitude) (12, AirborneFormat100meterRNP100footBarometricAltitude) (13, AirborneFormat0_25nmiRNP100footBarometricAltitude) (14, AirborneFormat1_0nmiRNP100footBarometricAltitude) (15, AirborneFormat5meterRNPGPSHeight) (16, AirborneFormat100meterRNPGPSHeight));
conv_enum!(AircraftAddressSource, u8; (0, ModeSAircraftAddressFieldValue) (1, GICBIFFDataRecordAvailable));
conv_enum!(SurveillanceStatus, u8; (0, NoInformation) (1, EmergencyLossofCommunications) (2, SPI) (3, ATCRBSCodeChange));
conv_enum!(TurnRateSource, u8; (0, ComputeLocally) (1, LessThan1DegreeTurnorNotTurning) (2, _1DegreeorGreaterTurnRate));
conv_enum!(TimeTypeSource, u8; (0, ComputeLocally) (1, EvenSecond) (2, OddSecond));
conv_enum!(AircraftTypeWake, u8; (0, NoStatement));
conv_enum!(DataCategory, u8; (0, NoStatement) (1, FunctionalData) (2, TransponderInterrogatorDataLinkMessages));
conv_enum!(TILinkType, u8; (0, NotUsed) (1, GroundInitiatedCommunicationsB) (2, AutomaticDependentSurveillance) (3, GlobalNavigationSatelliteSystem) (4, DataLinkInitiationCapability) (5, AircraftCommunicationsAddressingandReportingSystem) (6, ATCCommunicationsManagement) (7, VHFDigitalLink) (8, AeronauticalTelecommunicationNetwork) (9, ModeSelect) (10, AirborneCollisionAvoidanceSystems) (11, TrafficCollisionAvoidanceSystems) (12, AutomaticDependentSurveillanceB));
conv_enum!(AntennaStatus, u8; (0, NoStatement) (1, NotAbletoEmit) (2, AbletoEmit));
conv_enum!(TransmissionIndicator, u8; (0, NoStatement) (1, OriginalInterrogation) (2, InterrogationReply) (3, SquitterTransmission));
conv_enum!(ReplyAmplification, u8; (0, NoStatement) (1, Complete) (2, Limted) (3, UnabletoRespond));
conv_enum!(DEFireFlagsStateUpdateFlag, u8; (0, UpdateDuetoHeartbeatTimer) (1, StateChange));
conv_enum!(ComponentVisualDamageStatusSmoke, u8; (0, NoSmoke) (1, LightSmoke) (2, ModerateSmoke) (3, HeavySmoke));
conv_enum!(ComponentVisualDamageStatusSurfaceDamage, u8; (0, NormalAppearance) (1, LightCharring) (2, HeavyCharring) (3, OneorMoreHolesBurnedCompletelythroughSurface));
conv_enum!(GridAxisDescriptorAxisType, u8; (0, RegularAxis) (1, IrregularAxis));
conv_enum!(AppearancePaintScheme, u8; (0, UniformColor) (1, Camouflage));
conv_enum!(AppearanceDamage, u8; (0, NoDamage) (1, SlightDamage) (2, ModerateDamage) (3, Destroyed));
conv_enum!(Mode5MessageFormatsStatus, u8; (0, Capability) (1, ActiveInterrogation));
conv_enum!(AppearanceTrailingEffects, u8; (0, None) (1, Small) (2, Medium) (3, Large));
conv_enum!(AppearanceHatch, u8; (0, NotApplicable) (1, Closed) (2, Popped) (3, PoppedandPersonIsVisible) (4, Open) (5, OpenandPersonIsVisible));
conv_enum!(AppearanceLauncherOperational, u8; (0, NotRaisedNotOperational) (1, RaisedOperational));
conv_enum!(AppearanceCamouflageType, u8; (0, DesertCamouflage) (1, WinterCamouflage) (2, ForestCamouflage) (3, Other));
conv_enum!(AppearanceConcealedPosition, u8; (0, NotConcealed) (1, PreparedConcealedPosition));
conv_enum!(AppearanceEntityorObjectState, u8; (0, Active) (1, Deactivated));
conv_enum!(AppearanceCanopy, u8; (0, NotApplicable) (1, SingleCanopySingleTroopDoorClosed) (2, FrontandRearCanopyLeftandRightTroopDoorClosed) (3, FrontCanopyLeftTroopDoorOpen) (4, SingleCanopySingleTroopDoorOpen) (5, RearCanopyRightTroopDoorOpen) (6, FrontandRearCanopyLeftandRightTroopDoorOpen));
conv_enum!(AppearanceSubsurfaceHatch, u8; (0, NotApplicable) (1, HatchIsClosed) (4, HatchIsOpen));
conv_enum!(ActiveInterrogationIndicator, u8; (0, NotActive) (1, Active));
conv_enum!(AppearanceLifeformHealth, u8; (0, NoInjury) (1, SlightInjury) (2, ModerateInjury) (3, FatalInjury));
conv_enum!(AppearanceLifeFormComplianceStatus, u8; (0, NotSpecified) (1, Detained) (2, Surrender) (3, UsingFists) (4, VerbalAbuseLevel1) (5, VerbalAbuseLevel2) (6, VerbalAbuseLevel3) (7, PassiveResistanceLevel1) (8, PassiveResistanceLevel2) (9, PassiveResistanceLevel3) (10, UsingNonLethalWeapon1) (11, UsingNonLethalWeapon2) (12, UsingNonLethalWeapon3) (13, UsingNonLethalWeapon4) (14, UsingNonLethalWeapon5) (15, UsingNonLethalWeapon6));
conv_enum!(AppearanceLifeFormPosture, u8; (0, NotSpecified) (1, UprightStandingStill) (2, UprightWalking) (3, UprightRunning) (4, Kneeling) (5, Prone) (6, Crawling) (7, Swimming) (8, Parachuting) (9, Jumping) (10, Sitting) (11, Squatting) (12, Crouching) (13, Wading) (14, Surrender) (15, Detained));
conv_enum!(AppearanceLifeFormWeaponImplement, u8; (0, NotPresent) (1, Stowed) (2, DeployedActive) (3, FiringPositionInUse));
conv_enum!(AppearanceConcealedMovement, u8; (0, OpenMovement) (1, RushesBetweenCoveredPositions));
conv_enum!(AppearanceEnvironmentalDensity, u8; (0, Clear) (1, Hazy) (2, Dense) (3, VeryDense) (4, Opaque));
conv_enum!(Mode5PlatformType, u8; (0, GroundVehicle) (1, AirVehicle));
conv_enum!(AppearanceAntiCollisionDayNight, u8; (0, Day) (1, Night));
conv_enum!(AppearanceNavigationPositionBrightness, u8; (0, Dim) (1, Bright));
conv_enum!(AppearanceSupplyDeployed, u8; (0, NotApplicable) (1, Stowed) (2, Deployed) (3, DeployedandActive));
conv_enum!(AppearanceNVGMode, u8; (0, OvertLighting) (1, CovertLighting));
conv_enum!(Parachute, u8; (0, None) (1, Deployed) (2, Collapsed) (3, MalfunctionStreamer));
conv_enum!(FlareSmokeColor, u8; (0, White) (1, Red) (2, Green) (3, IR));
conv_enum!(FlareSmokeStatus, u8; (0, NotIgnited) (1, Burning) (2, BurnedOut));
conv_enum!(SpotChaffStatus, u8; (0, None) (1, Deployed) (2, Malfunction));
conv_enum!(AppearanceObjectGeneralDamage, u8; (0, NoDamage) (1, Damaged) (2, Destroyed));
conv_enum!(AppearanceObjectGeneralPredistributed, u8; (0, ObjectCreatedDuringtheExercise) (1, ObjectPredistributedPriortoExerciseStart));
conv_enum!(AppearanceObjectSpecificBreachState, u8; (0, NoBreaching) (1, Breached) (2, Cleared));
conv_enum!(AppearanceObjectSpecificChemicalType, u8; (0, Other) (1, Hydrochloric) (2, WhitePhosphorous) (3, RedPhosphorous));
conv_enum!(AppearanceLinearObjectTankDitchBreach, u8; (0, NoBreaching) (1, SlightBreaching) (2, ModerateBreached) (3, Cleared));
conv_enum!(AppearanceLinearObjectLaneMarkerVisible, u8; (0, LeftSideIsVisible) (1, RightSideIsVisible) (2, BothSidesAreVisible));
conv_enum!(AppearanceObjectGeneralIEDPresent, u8; (0, None) (1, Visible) (2, PartiallyHidden) (3, CompletelyHidden));
conv_enum!(Mode5LevelSelection, u8; (0, Mode5Level1) (1, Mode5Level2));
conv_enum!(SupplyFuelType, u8; (0, Other) (1, Gasoline) (2, DieselFuel) (3, JP4) (4, FuelOil) (5, JP8) (6, FogOil) (7, MultiSpectralFogOil) (8, JP5) (9, JPTS) (10, TS1));
conv_enum!(SensorTypeSource, u8; (0, OtherActiveSensors) (1, Electromagnetic) (2, PassiveSensors) (3, MinefieldSensors) (4, UnderwaterAcoustics) (5, Lasers));
conv_enum!(AttachedPartDetachedIndicator, u8; (0, Attached) (1, Detached));
conv_enum!(IntercomControlCommunicationsClass, u8; (0, SimulatedCommunicationsChannel) (1, SimulationSupportCommunicationsChannel));
conv_enum!(DISLiveEntitySubprotocolNumber, u8; (0, NoSubprotocol));
conv_enum!(MinefieldAppearanceMinefieldType, u8; (0, MixedAntiPersonnelandAntiTankMinefield) (1, PureAntiPersonnelMinefield) (2, PureAntiTankMinefield));
conv_enum!(MinefieldAppearanceActiveStatus, u8; (0, Active) (1, Inactive));
conv_enum!(MinefieldAppearanceLane, u8; (0, MinefieldHasActiveLane) (1, MinefieldHasanInactiveLane));
conv_enum!(MinefieldAppearanceState, u8; (0, Active) (1, Deactivated));
conv_enum!(MinefieldFusingFuseType, u8; (0, NoFuse) (1, Other) (2, Pressure) (3, Magnetic) (4, TiltRod) (5, Command) (6, TripWire));
conv_enum!(Mode5LocationErrors, u8; (0, NoLocationErrors) (1, IFFDataRecordPresent));
conv_enum!(MinefieldPaintSchemeAlgae, u8; (0, None) (1, Light) (2, Moderate) (3, Heavy));
conv_enum!(MinefieldPaintSchemePaintScheme, u8; (0, Other) (1, Standard) (2, CamouflageDesert) (3, CamouflageJungle) (4, CamouflageSnow) (5, CamouflageGravel) (6, CamouflagePavement) (7, CamouflageSand) (8, NaturalWood) (9, Clear) (10, Red) (11, Blue) (12, Green) (13, Olive) (14, White) (15, Tan) (16, Black) (17, Yellow) (18, Brown));
conv_enum!(CoverShroudStatus, u8; (0, Closed) (1, Opening) (2, CoverShroudBlownDetached) (3, OpenAttached));
conv_enum!(PlatformLandMotorcycleSubcategories, u8; (0, Other) (1, Scooter) (2, SportStreet) (3, Cruiser) (4, DirtBike) (5, Standard) (6, Touring) (7, DualPurpose));
conv_enum!(PlatformLandCarSubcategories, u8; (0, Other) (10, Generic) (11, GenericMiniMicrocar) (12, GenericEconomyCompact) (13, GenericIntermediateStandard) (14, GenericFullPremiumLuxury) (15, GenericOversize) (20, _2DoorCoupe) (21, _2DoorCoupeMiniMicrocar) (22, _2DoorCoupeEconomyCompact) (23, _2DoorCoupeIntermediateStandard) (30, _3DoorHatchback) (31, _3DoorHatchbackMiniMicrocar) (32, _3DoorHatchbackEconomyCompact) (40, _4DoorSedan) (41, _4DoorSedanMiniMicrocar) (42, _4DoorSedanEconomyCompact) (43, _4DoorSedanIntermediateStandard) (44, _4DoorSedanFullPremiumLuxury) (45, _4DoorSedanOversize) (50, _5DoorHatchback) (51, _5DoorHatchbackMiniMicrocar) (52, _5DoorHatchbackEconomyCompact) (53, _5DoorHatchbackIntermediateStandard) (54, _5DoorHatchbackFullPremiumLuxury) (60, Wagon) (62, WagonEconomyCompact) (63, WagonIntermediateStandard) (64, WagonFullPremiumLuxury) (70, Minivan) (80, Limousine) (84, LimousineFullPremiumLuxury) (85, LimousineOversize) (90, Sports) (100, Convertible) (101, ConvertibleMiniMicrocar) (102, ConvertibleEconomyCompact) (103, ConvertibleIntermediateStandard) (104, ConvertibleFullPremiumLuxury) (110, SportsUtilityVehicle) (112, SportsUtilityVehicleEconomyCompact) (113, SportsUtilityVehicleIntermediateStandard) (114, SportsUtilityVehicleFullPremiumLuxury) (115, SportsUtilityVehicleOversize));
conv_enum!(PlatformLandBusSubcategories, u8; (0, Other) (1, CommuterFlatNose) (2, CommuterSnoutNose) (3, Shuttle) (4, DoubleDecker) (5, Guided) (6, Kneeling) (7, Midibus) (8, Minibus) (9, MiniWheelchair) (10, Motorcoach) (11, PrisonBus) (12, Schoolbus) (13, SchoolWheelchair) (14, Tour) (15, TramParkingLot) (16, Trolley) (17, AirportTransport) (18, Articulated));
conv_enum!(PlatformLandSingleUnitCargoTruckSubcategories, u8; (0, Other) (1, PickupTruckMini) (2, PickupTruckMidSize) (3, PickupTruckFullSize) (4, PickupTruckCrewCab) (5, PickupTruckExtendedCab) (6, PickupTruckLongBed) (7, PickupTruckCabForward) (10, CargoTruck) (11, CargoTruckupto2_5Ton) (12, CargoTruckupto5Ton) (13, CargoTruckupto7_5Ton) (14, CargoTruckupto10Ton) (15, CargoTruckover10Ton) (20, Tanker) (30, SemiTrailerCab) (70, Van) (71, VanExtended) (72, VanCompact) (73, VanWheelchair) (74, VanDelivery) (100, DeliveryTruck) (101, DeliveryTruckBox) (102, DeliveryTruckFlatbed) (103, DeliveryTruckStakeBed) (104, MessTruck) (105, TruckPalletisedLoadSystem) (106, TruckPetroleumOilandLubricants) (107, TruckPetroleumOilandLubricantsSurveillance) (108, RefrigeratedTruckSmall) (109, RefrigeratedTruckMedium) (110, RefrigeratedTruckLarge));
conv_enum!(PlatformLandSingleUnitUtilityEmergencyTruckSubcategories, u8; (0, Other) (1, AmbulanceTruck) (2, FireParamedicTruck) (3, AmbulanceAdvancedLifeSupport) (4, AmbulancePickupTruck) (10, FireEngine) (11, AerialLadderFireEngine) (12, AirportFireEngine) (13, WildlandFireEngine) (14, FireChief) (20, PolicePaddyWagon) (21, PoliceSWAT) (22, PoliceBombSquad) (23, PolicePickupTruck) (30, Hazmat) (40, WreckerNormalHookandChain) (41, WreckerNormalBoom) (42, WreckerNormalWheelLift) (43, WreckerNormalFlatbed) (44, WreckerNormalIntegrated) (45, WreckerHeavyHookandChain) (46, WreckerHeavyBoom) (47, WreckerHeavyWheelLift) (48, WreckerHeavyFlatbed) (49, WreckerHeavyIntegrated) (60, PostalTruck) (70, StreetSweeper) (71, StreetSweeperThreeWheeled) (80, WasteCollectionOther) (81, WasteCollectionFrontLoader) (82, WasteCollectionRearLoader) (83, WasteCollectionAutomatedSideLoader) (84, WasteCollectionPneumaticCollection) (85, WasteCollectionGrapple) (90, UtilityTruck) (91, UtilityTruckwBoom) (100, AerialWorkPlatformOther) (101, AerialWorkPlatformScissorLift) (102, AerialWorkPlatformTelescoping) (120, MaintenanceTruck) (121, DecontaminationTruck) (122, WaterCannonTruck) (123, WaterPurificationTruck) (124, SmokeGeneratorTruck) (150, AutoRickshaw));
conv_enum!(PlatformLandMultipleUnitCargoTruckSubcategories, u8; (0, Other) (1, TractorTrailer) (2, Tanker));
conv_enum!(PlatformLandMultipleUnitUtilityEmergencyTruckSubcategories, u8; (0, Other) (1, FireEngineHookAndLadder));
conv_enum!(PlatformLandConstructionSpecialtyVehicleSubcategories, u8; (0, Other) (1, Tug) (2, Forklift) (3, Loader) (4, LoaderBackhoe) (5, CraneTractorMounted) (6, CraneWheeled) (7, Grader) (8, RoadRollerOther) (9, RoadRollerDoubleDrumSmooth) (10, RoadRollerSingleDrumSmooth) (11, RoadRollerDoubleDrumSheeps) (12, RoadRollerSingleDrumSheeps) (13, RoadRollerPneumaticTired) (14, ExcavatorOther) (15, ExcavatorDragline) (16, ExcavatorLongReach) (17, ExcavatorMobileTire) (18, MiniExcavator) (19, ExcavatorGiant) (20, BulldozerTractorMounted) (21, BulldozerTracked) (22, Scraper) (23, SkidSteer) (24, DumpTruckOther) (25, DumpTruckArticulated) (26, DumpTruckTransfer) (27, DumpTruckSuper) (28, DumpTruckOffRoad) (29, Paver) (30, DrillingMachine) (31, ConcreteMixerOther) (32, ConcreteMixerRearDischarge) (33, ConcreteMixerFrontDischarge) (34, ConcreteMixerSixAxle) (35, ConcreteMixerLongReachBoom) (36, ConcreteMixerVolumetric) (37, TrencherChain) (38, TrencherRockwheel) (39, Snowcat) (40, CraneTracked) (41, CraneShovel) (42, SweeperRotary) (43, RollerVibratoryCompactor) (44, ForkLiftTruck) (45, ForkLiftRoughtTerrain) (46, Transloader) (47, TruckWaterConstruction) (48, TruckFuelDelivery) (49, TruckSawmill) (50, TruckLineMarkingConstruction) (51, TractorIndustrial) (52, CompactorHighSpeed) (53, TruckDrilling) (54, TruckDrillingSupport) (55, CraneConstruction));
conv_enum!(PlatformLandFarmSpecialtyVehicleSubcategories, u8; (0, Other) (1, Tractor) (2, HarvesterReaper) (3, Skidder) (4, Forwarder) (5, LawnMowerOther) (6, LawnMowerRiding) (7, LawnMowerStanding) (8, LawnMowerPush));
conv_enum!(PlatformLandTrailerSubcategories, u8; (0, Other) (1, TrailerFlatbed) (2, TrailerContainer) (3, TrailerContainerRefrigerated) (4, TrailerDouble) (5, TrailerAutoTransport) (6, TrailerArticulated) (7, TrailerTanker) (8, TrailerTankerSmall) (9, TrailerTankerLarge) (10, TrailerTankerGasoline) (11, TrailerTankerMilk) (12, TrailerTankerWater) (13, TrailerTankerSeptic) (14, TrailerBoat) (15, TrailerBoatSmall) (16, TrailerBoatLarge) (17, TrailerRecreational) (18, TrailerRecreationalConventional) (19, TrailerRecreationalTravelExpandable) (20, TrailerRecreationalFifthWheelTravel) (21, TrailerRecreationalFoldingCamping) (22, TrailerRecreationalTruckCamper) (23, TrailerAerostatMooringPlatform) (24, TrailerHousehold) (25, TrailerKitchen) (26, TrailerUltraLightAircraft) (27, TrailerHeavyEquipment));
conv_enum!(PlatformLandRecreationalSubcategories, u8; (0, Other) (1, ATV2X4) (2, ATV4X4) (3, ATV6X6) (4, ATV3wheeled) (5, ToyOther) (6, ToyCar) (7, ToyATV) (8, GolfCart) (9, Snowmobile) (10, RecreationalVehicle) (11, RecreationalVehicleTypeAMotorhome) (12, RecreationalVehicleTypeBMotorhome) (13, RecreationalVehicleTypeCMotorhome) (14, ConversionVan));
conv_enum!(PlatformLandNonmotorizedSubcategories, u8; (0, Other) (1, Unicycle) (2, Bicycle) (3, BicycleMountain) (4, BicycleRacing) (5, Tricycle) (6, Quadricycle) (7, RickshawTwoPerson) (8, RickshawOnePerson) (9, TandemBicycle) (10, CycleTrailer) (11, CycleSidecar) (12, Sled) (13, Skis) (14, Snowboard) (15, Skateboard) (16, Skates) (17, SkatesInLine) (18, WagonCart) (19, Dolly) (20, Handtruck) (21, PushCart) (22, Wheelbarrow) (23, KickScooter) (24, Wheelchair));
conv_enum!(PlatformLandTrainsSubcategories, u8; (0, Other) (1, Engine) (2, BoxCar) (3, Tanker) (4, Flatcar) (5, Caboose) (6, PassengerCar) (7, Hopper));
conv_enum!(PlatformLandUtilityEmergencyCarSubcategories, u8; (0, Other) (1, AmbulanceCar) (2, PoliceCar) (3, PoliceChief) (4, Hearse) (5, Taxi));
conv_enum!(PlatformSurfacePassengerVesselSubcategories, u8; (1, CruiseShip) (2, CruiseFerry) (3, HighSpeedFerry) (4, Ferry) (5, OceanLiner));
conv_enum!(PlatformSurfaceDryCargoShipSubcategories, u8; (1, CommonDryCargoShip) (2, DryBulkCargoShip) (3, ContainerShip) (4, ReeferShip) (5, RoRoShip) (6, Barge) (7, HeavyLiftShip));
conv_enum!(PlatformSurfaceTankerSubcategories, u8; (1, LiquidPetroleumGasTanker) (2, ChemicalTanker) (3, LiquidNaturalGasTanker) (4, CoastalTradingVessel) (5, CrudeOilTanker) (6, LiquidBulkTanker) (7, VeryLargeCrudeCarrier) (8, UltraLargeCrudeCarrier) (9, CondensateStorageTanker));
conv_enum!(PlatformSurfaceSupportVesselSubcategories, u8; (1, PlatformSupplyVessel) (2, TenderVessel) (3, Tugboat) (4, DiveSupportVessel) (5, Fireboat) (6, WellStimulationVessel) (7, AnchorHandlingTugSupplyVessel) (8, OffshoreConstructionVessel) (9, EmergencyResponseandRescueVessel));
conv_enum!(PlatformSurfacePrivateMotorboatSubcategories, u8; (1, SmallMotorboat) (2, MediumMotorboat) (3, LargeMotorboat) (4, VeryLargeMotorboat));
conv_enum!(PlatformSurfacePrivateSailboatSubcategories, u8; (1, SmallSailboat) (2, MediumSailboat) (3, LargeSailboat) (4, VeryLargeSailboat));
conv_enum!(PlatformSurfaceFishingVesselSubcategories, u8; (1, SmallFishingVessel) (2, MediumFishingVessel) (3, LargeFishingVessel) (4, FishProcessingVessel) (5, MastedFishingVessel));
conv_enum!(PlatformSurfaceOtherVesselsSubcategories, u8; (1, GoFastBoat) (2, ResearchVessel) (3, HydrofoilVessel) (4, CableLayerVessel) (5, DredgerVessel) (6, JunkDhowVessel) (7, Catamaran) (8, Pontoon) (9, PersonalWaterCraft) (10, RefugeeRaft));
conv_enum!(CryptoKeyIDCryptoMode, u8; (0, Baseband) (1, Diphase));
conv_enum!(Color, u8; (0, NotSpecified) (1, WhiteVGA) (2, RedVGA) (3, YellowVGA) (4, LimeVGA) (5, CyanVGA) (6, BlueVGA) (7, MagentaVGA) (8, GreyVGA) (9, SilverVGA) (10, MaroonVGA) (11, OliveVGA) (12, GreenVGA) (13, TealVGA) (14, NavyVGA) (15, PurpleVGA) (20, Black) (21, Navy) (22, DarkBlue) (23, MediumBlue) (24, Blue) (25, DarkGreen) (26, Green) (27, Teal) (28, DarkCyan) (29, DeepSkyBlue) (30, DarkTurquoise) (31, MediumSpringGreen) (32, Lime) (33, SpringGreen) (34, Cyan) (35, MidnightBlue) (36, DodgerBlue) (37, LightSeaGreen) (38, ForestGreen) (39, SeaGreen) (40, DarkSlateGray) (41, LimeGreen) (42, MediumSeaGreen) (43, Turquoise) (44, RoyalBlue) (45, SteelBlue) (46, DarkSlateBlue) (47, MediumTurquoise) (48, Indigo) (49, DarkOliveGreen) (50, CadetBlue) (51, CornflowerBlue) (52, MediumAquamarine) (53, DimGray) (54, SlateBlue) (55, OliveDrab) (56, SlateGray) (57, LightSlateGray) (58, MediumSlateBlue) (59, LawnGreen) (60, Chartreuse) (61, Aquamarine) (62, Maroon) (63, Purple) (64, Olive) (65, Gray) (66, Grey) (67, SkyBlue) (68, LightSkyBlue) (69, BlueViolet) (70, DarkRed) (71, DarkMagenta) (72, SaddleBrown) (73, DarkSeaGreen) (74, LightGreen) (75, MediumPurple) (76, DarkViolet) (77, PaleGreen) (78, DarkOrchid) (79, YellowGreen) (80, Sienna) (81, Brown) (82, DarkGray) (83, LightBlue) (84, GreenYellow) (85, PaleTurquoise) (86, LightSteelBlue) (87, PowderBlue) (88, FireBrick) (89, DarkGoldenRod) (90, MediumOrchid) (91, RosyBrown) (92, DarkKhaki) (93, Silver) (94, MediumVioletRed) (95, IndianRed) (96, Peru) (97, Chocolate) (98, Tan) (99, LightGray) (100, PaleVioletRed) (101, Thistle) (102, Orchid) (103, GoldenRod) (104, Crimson) (105, Gainsboro) (106, Plum) (107, BurlyWood) (108, LightCyan) (109, Lavender) (110, DarkSalmon) (111, Violet) (112, PaleGoldenRod) (113, LightCoral) (114, Khaki) (115, AliceBlue) (116, HoneyDew) (117, Azure) (118, SandyBrown) (119, Wheat) (120, Beige) (121, WhiteSmoke) (122, MintCream) (123, GhostWhite) (124, Salmon) (125, AntiqueWhite) (126, Linen) (127, LightGoldenRodYellow) (128, OldLace) (129, Red) (130, Fuchsia) (131, Magenta) (132, DeepPink) (133, OrangeRed) (134, Tomato) (135, HotPink) (136, Coral) (137, DarkOrange) (138, LightSalmon) (139, Orange) (140, LightPink) (141, Pink) (142, Gold) (143, PeachPuff) (144, NavajoWhite) (145, Moccasin) (146, Bisque) (147, MistyRose) (148, BlanchedAlmond) (149, PapayaWhip) (150, LavenderBlush) (151, SeaShell) (152, Cornsilk) (153, LemonChiffon) (154, FloralWhite) (155, Snow) (156, Yellow) (157, LightYellow) (158, Ivory) (159, White));
conv_enum!(BuildingPaintScheme, u8; (0, Default));
conv_enum!(Season, u8; (0, Summer) (1, Winter) (2, Spring) (3, Autumn));
conv_enum!(Material, u8; (0, NotSpecified) (1, Plastic) (2, Rubber) (3, Road));
conv_enum!(Link11_11BFidelityLevel, u8; (0, FidelityLevel0) (1, FidelityLevel1) (2, FidelityLevel2));
conv_enum!(Link11TerminalMode, u8; (0, NoStatement) (1, NetworkControlStation) (2, Picket));
conv_enum!(Link11DataTerminalSetIndicator, u8; (0, NoStatement) (1, Transmit) (2, Receive) (3, NetBusy) (4, TransmitDataError) (5, ReceiveDataError) (6, CodeError) (7, SynchronizationComplete));
conv_enum!(Link11ModeofOperation, u16; (0, NoStatement) (1, NetSync) (2, NetTest) (3, RollCall) (4, ShortBroadcast) (5, Broadcast));
conv_enum!(LifeFormsSubcategoryIranianWeapons, u8; (1, Misagh2) (2, RBS70));
conv_enum!(LifeFormLandCategories, u8; (10, ConventionalArmedForces) (11, Army) (12, NavalInfantry) (13, AirForce) (14, Navy) (15, CoastGuard) (16, UnitedNations) (30, SpecialOperationsForces) (50, LawEnforcement) (70, NonMilitaryNationalGovernmentAgencies) (90, RegionalLocalForces) (100, IrregularForces) (101, TerroristCombatant) (102, Insurgent) (110, ParamilitaryForces) (120, HumanitarianOrganizations) (130, Civilian) (131, EmergencyMedicalTechnician) (132, Firefighter) (133, Press) (200, Mammal) (201, Reptile) (202, Amphibian) (203, Insect) (204, Arachnid) (205, Mollusk) (206, Marsupial));
conv_enum!(LifeFormHumanSubcategoryEquipmentClass, u8; (0, None) (1, WeaponNonspecific) (5, AssaultRifles) (10, HighPowerRifles) (15, SniperRifles) (17, AntiMaterielRifle) (20, SubMachineGuns) (25, ShotGuns) (30, GrenadeLaunchers) (35, MachineGuns) (40, GrenadeLaunchingMachineGun) (45, AntiTankRockets) (50, AntiTankMissiles) (55, AntiTankGuns) (60, FlameRockets) (65, FlameThrowers) (70, RocketLaunchers) (75, Mortars) (80, HandGuns) (85, ManPortableAirDefenseSystem) (90, RecoillessRifles) (95, DroneGuns) (150, EquipmentNonspecific) (151, Sensors) (152, SignalSensor) (153, Lasers) (160, AnimalCompanion) (171, PersonalElectronics) (172, LogisticsEquipment));
conv_enum!(LifeFormHumanSpecificAssaultRifles, u8; (0, Other) (1, _4_5mmInterdynamicsMKR) (10, _5_45mmAK74) (11, _5_45mmAKS74) (12, _5_45mmAK74M) (13, _5_45mmKbkwz_1988Tantal) (30, _5_56mmAK101) (31, _5_56mmDiemacoC7) (32, _5_56mmColtCanadaC8Carbine) (33, _5_56mmGIATFAMASG2) (34, _5_56mmFNFNC) (35, _5_56mmHKG36) (36, _5_56mmIMIGalil) (37, _5_56mmINSAS) (38, _5_56mmDaewooK1) (39, _5_56mmDaewooK2) (40, _5_56mmM16A1) (41, _5_56mmM16A2A3A4) (42, _5_56mmColtM4) (43, _5_56mmColtM4SpecialOperationsPeculiarModification) (44, _5_56mmRugerMini14) (45, _5_56mmEnfieldSA80A2) (46, _5_56mmPindadSS1V1) (47, _5_56mmPindadSS1V2) (48, _5_56mmPindadSS1V3) (49, _5_56mmSteyrAUGA1) (50, _5_56mmT65) (51, _5_56mmT91) (52, _5_56mmTavorTAR21) (53, _5_56mmTypeCQM311) (54, _5_56mmDaewooK11) (55, _5_56mmAusteyrF88) (56, _5_56mmAusteyrF88GLA) (57, _5_56mmAusteyrF88SA1) (58, _5_56mmAusteyrF88SA2) (59, _5_56mmAusteyrF88C) (60, _5_56mmAusteyrF88SA1C) (61, _5_56mmAusteyrF88SA1LTR) (62, _5_56mmAusteyrEF88) (63, _5_56mmBushmasterXM15) (64, _5_56mmHK416) (65, _5_56mmF90) (66, _5_56mmF90G) (67, _5_56mmF90M) (68, _5_56mmF90MG) (69, _5_56mmF90CQB) (70, _5_56mmMK17SCARL) (100, _5_8mmQBZ95) (110, _7_62mmAK103) (111, _7_62mmAK104) (112, _7_62mmAK47) (113, _7_62mmAKM) (114, _7_62mmAKS47) (115, _7_62mmHKG3A3) (116, _7_62mmIMIGalil) (117, _7_62mmKLS) (118, _7_62mmSKS) (119, _7_62mmType56) (120, _7_62mmType6368) (121, _7_62mmType81) (122, _7_62mmMK17SCARH) (240, _8mmLebelM16));
conv_enum!(LifeFormHumanSpecificHighPowerRifles, u8; (0, Other) (10, _7_62mmM14) (11, _7_62mmRemington700) (12, _7_62mmSIGSauerSSG2000) (13, _7_62mmStonerSR25) (14, _7_62mmMosinNagantModel189130) (15, _7_62mmHK417) (16, _7_62mmHK41716Recce) (50, _7_65mmBARM1918) (51, _7_65mmM1Garand));
conv_enum!(LifeFormCategoriesUS, u8; (11, USArmy) (12, USMarineCorps) (13, USAirForce) (14, USNavy) (15, USCoastGuard) (31, Rangers) (32, ARSOF) (33, ForceReconnaissance) (34, NavySEAL) (35, AFSOF) (36, DeltaForce) (51, FederalBureauofInvestigation) (52, CentralIntelligenceAgency) (53, DepartmentofHomelandSecurity) (54, BureauofAlcoholTobaccoFirearmsandExplosives) (55, USSecretService) (56, USMarshal) (71, StatePolice) (72, CountySheriffPolice) (73, MunicipalPolice) (124, RedCross));
conv_enum!(LifeFormExtraPersonalData, u8; (0, NotSpecifiedMale) (1, AsianMale) (2, PacificIslanderMale) (3, BlackMale) (4, EastAsianMale) (5, HispanicMale) (6, WhiteMale) (7, ArabMale) (8, HomogenousCountryCodeMale) (9, IndigenousCountryCodeMale) (10, InfantMale) (20, ToddlerMale) (30, ChildMale) (40, AdolescentMale) (50, TeenagerMale) (60, YoungAdultMale) (70, AdultMale) (80, SeniorAdultMale) (90, ElderlyMale) (100, Female) (101, AsianFemale) (102, PacificIslanderFemale) (103, BlackFemale) (104, EastAsianFemale) (105, HispanicFemale) (106, WhiteFemale) (107, ArabFemale) (108, HomogenousCountryCodeFemale) (109, IndigenousCountryCodeFemale) (110, InfantFemale) (120, ToddlerFemale) (130, ChildFemale) (140, AdolescentFemale) (150, TeenagerFemale) (160, YoungAdultFemale) (170, AdultFemale) (180, SeniorAdultFemale) (190, ElderlyFemale));
conv_enum!(LifeFormAirCategories, u8; (200, Bird) (201, Insect) (202, Mammal));
conv_enum!(LifeFormSubsurfaceCategories, u8; (200, Fish) (201, Mammal) (202, Mollusk) (203, Crustacean) (204, Insect));
conv_enum!(LifeFormHumanSpecificSniper, u8; (0, Other) (1, _5_8mmQBU88) (30, _7_62mmC3) (31, _7_62mmFRF2) (32, _7_62mmAWMF) (33, _7_62mmG3SG1) (34, _7_62mmGalilSniper) (35, _7_62mmL96A1) (36, _7_62mmM14DMR) (37, _7_62mmM24SniperWeaponSystem) (38, _7_62mmM40A1A3) (39, _7_62mmSteyrSSG69) (40, _7_62mmSVD) (41, _7_62mmTYPE79) (42, _7_62mmSR25MK11) (43, _7_62mmAWSR98) (44, _7_62mmBlaserR93) (45, _7_62mmM2010EnhancedSniperRifle) (46, _7_62mmM110SemiAutomaticSniperSystem) (47, _7_62mmL129A1) (100, _7_7mmTYPE99) (105, _8_58mmBlaserR93Tactical2) (110, _9mmVSSVintorez) (170, _12_7mmSteyrHS_50) (171, _12_7mmM82A1ASpecialApplicationsScopedRifle) (172, _12_7mmNSV) (173, _12_7mmOSV96) (174, _12_7mmRangemaster50) (175, _12_7mmV94) (176, _12_7mmM107) (200, _20mmDenelNTW20));
conv_enum!(LifeFormHumanSpecificSubMachineGun, u8; (0, Other) (10, _5_45mmAKS74U) (20, _5_56mmDaewooK1A) (60, _9mmDaewooK7) (61, _9mmMAC10) (62, _9mmMadsenMKII) (63, _9mmMiniUzi) (64, _9mmModel83SkorpionSMG) (65, _9mmMP5A2) (66, _9mmMP5N) (67, _9mmSterlingSMG) (68, _9mmTypeCF05) (69, _9mmUzi));
conv_enum!(AustralianCategoryOverlay, u8; (11, AustralianArmy) (13, RoyalAustralianAirForce) (14, RoyalAustralianNavy) (30, AustralianSpecialOperationsCommand) (51, AustralianDepartmentofHomeAffairs) (52, AustralianFederalPolice));
conv_enum!(LifeFormCategoriesAfghanistan, u8; (11, AfghanNationalArmy) (13, AfghanAirForce) (51, NationalDirectorateofSecurity) (52, AfghanNationalPolice) (53, AfghanBorderPolice) (54, AfghanNationalCivilOrderPolice) (55, AfghanPublicProtectionForce) (70, NonMilitaryNationalGovernmentAgencies) (101, TerroristCombatant) (120, HumanitarianOrganizations) (121, RedCrescent) (130, Civilian) (133, Press));
conv_enum!(LifeFormHumanSpecificEquipmentClass, u8; (1, SignalSmoke) (2, FlashLight) (3, SignalMirror) (4, IRStrobe) (5, IRIlluminator) (6, Spotlight));
conv_enum!(PlatformSubsurfaceCivilianSemiSubmersiblesSubcategories, u8; (1, NarcoSubmarine));
conv_enum!(LeafCoverage, u8; (0, Normal) (1, Bare));
conv_enum!(LifeFormHumanSpecificAntiMaterielRifles, u8; (0, Other) (10, _12_7mmAW50) (11, _12_7mmAW50F));
conv_enum!(LifeFormHumanSpecificShotGuns, u8; (0, Other) (20, BrowningSuperposedOU) (21, BrowningCynergy) (22, BrowningAuto5) (23, _18_5mmBrowningCitoriOU12Gauge) (24, _16_8mmBrowningCitoriOU16Gauge) (25, _15_6mmBrowningCitoriOU20Gauge) (26, _14mmBrowningCitoriOU28Gauge) (27, _10_4mmBrowningCitoriOU_410Bore) (28, _18_5mmBrowningDoubleAutomatic12Gauge) (29, _18_5mmIthaca3712Gauge) (30, _16_8mmIthaca3716Gauge) (31, _15_6mmIthaca3720Gauge) (32, _14mmIthaca3728Gauge) (33, _19_7mmIthacaMag10SA10Gauge) (34, _19_7mmMarlinModel5510Gauge) (35, _18_5mmMarlinModel5512Gauge) (36, _16_8mmMarlinModel5516Gauge) (37, _15_6mmMarlinModel5520Gauge) (38, _18_5mmMossberg50012Gauge) (39, _15_6mmMossberg50020Gauge) (40, _10_4mmMossberg500_410Bore) (41, _18_5mmMossberg59012Gauge) (42, _15_6mmMossberg59020Gauge) (43, _10_4mmMossberg590_410Bore) (44, _18_5mmMossberg930SA12Gauge) (45, RemingtonModel11SA) (46, RemingtonModel1012Gauge) (47, _15_6mmRemingtonModel1720Gauge) (48, RemingtonModel31) (49, RemingtonModel1148SA) (50, _18_5mmRemington87012Gauge) (51, _16_8mmRemington87016Gauge) (52, _15_6mmRemington87020Gauge) (53, _14mmRemington87028Gauge) (54, _10_4mmRemington870_410Bore) (55, RemingtonModel58SA) (56, _18_5mmRemington878SA12Gauge) (57, _18_5mmRemingtonModel1100SA12Gauge) (58, _16_8mmRemingtonModel1100SA16Gauge) (59, _15_6mmRemingtonModel1100SA20Gauge) (60, _14mmRemingtonModel1100SA28Gauge) (61, _10_4mmRemingtonModel1100SA_410Bore) (62, _18_5mmRemington1187SA12Gauge) (63, _15_6mmRemington1187SA20Gauge) (64, _19_7mmRemingtonModelSP10SA10Gauge) (65, _18_5mmRemington88712Gauge) (70, _18_5mmRemingtonSparta100SxS12Gauge) (71, _15_6mmRemingtonSparta100SxS20Gauge) (72, _10_4mmRemingtonSparta100SxS_410Bore) (73, _18_5mmRemingtonSpartan310OU12Gauge) (74, _15_6mmRemingtonSpartan310OU20Gauge) (75, _14mmRemingtonSpartan310OU28Gauge) (76, _10_4mmRemingtonSpartan310OU_410Bore) (77, _18_5mmRemingtonSpartan453SA12Gauge) (80, _18_5mmWinchesterModel120012Gauge) (81, _16_8mmWinchesterModel120016Gauge) (82, _15_6mmWinchesterModel120020Gauge) (83, WinchesterModel18871901) (84, WinchesterModel1897) (85, WinchesterModel1912) (86, WinchesterModel21SxS) (87, WinchesterModel37SxS) (88, _18_5mmHRUltraslugSxS12Gauge) (89, _15_6mmHRUltraslugSxS20Gauge) (90, _18_5mmCienerUltimateOU12Gauge) (91, _18_5mmCoachGunSxSDoubleBarrel12Gauge) (92, _18_5mmRugerGoldLabelSxS12Gauge) (93, _18_5mmHighStandardModel10SA12Gauge) (94, _18_5mmKelTexKSG12Gauge) (95, _18_5KACMasterkey12Gauge) (96, _18_5mmM26M_A_S_S_12Gauge) (97, _18_5mmSRMArmsM1216SA12Gauge) (98, _18_5mmAA12FAAtchissonAssault) (99, _18_5mmPancorJackhammerFA12Gauge) (110, _18_5mmUSAS12FA12Gauge) (111, _18_5mmMAULSA12Gauge) (112, _18_5mmFNSLPSA12Gauge) (113, _18_5mmFNTPS12Gauge) (115, _18_5mmENARMPentagunSA12Gauge) (116, StevensModel520620) (117, StoegerCoachGunSxS) (118, StoegerCondorOU) (120, _18_5mmArmscorModel30SA12Gauge) (121, WeatherbySA08SA) (122, _18_5mmFabarmSDASSTactical12Gauge) (123, _18_5mmMAG712Gauge) (124, _18_5mmNeostead12Gauge) (125, _18_5mmArmselStrikerSA12Gauge) (127, _18_5mmParkerHaleRogunSA12Gauge) (130, _26mmRGA86Revolver) (131, _18_5mmSjorgrenSA12Gauge) (132, _18_5mmAkdalMKA1919SA12Gauge) (133, _18_5mmRetayMasaiMaraSA12Gauge) (134, _18_5mmSafirT14SA12Gauge) (150, _18_5mmBenelliM1Super90SA12Gauge) (151, _15_6mmBenelliM1Super90SA20Gauge) (152, _18_5mmBenelliM3Super90SA12Gauge) (153, _15_6mmBenelliM3Super90SA20Gauge) (154, _18_5mmBenelliM4Super90SA12Gauge) (155, _18_5mmBenelliNova12Gauge) (156, _15_6mmBenelliNove20Gauge) (157, _18_5mmBenelliRaffaelloSA12Gauge) (158, _18_5mmBenelliSupernova12Gauge) (159, _18_5mmBenelliVinciSA12Gauge) (160, _18_5mmBeretta1201FPSA12Gauge) (161, _18_5mmBeretta682OU12Gauge) (162, _15_6mmBeretta682OU20Gauge) (163, _14mmBeretta682OU28Gauge) (164, _10_4mmBeretta682OU_410Bore) (165, _18_5mmBerettaA303SA12Gauge) (166, _18_5mmBerettaAL391SA12Gauge) (167, _15_6mmBerettaAL391SA20Gauge) (168, _18_5mmBerettaDT10OU12Gauge) (169, BerettaSilverPigeonOU) (170, _18_5mmBerettaXtrema2SA12Gauge) (171, _15_6mmFranchiAL48SA20Gauge) (172, _14mmFranchiAL48SA28Gauge) (173, _10_4mmFranchimod_410FA_410Bore) (174, _18_5mmFranchiSPAS12SA12Gauge) (175, _18_5mmFranchiSPAS15SA12Gauge) (176, _18_5mmValtroPM5PM535012Gauge) (180, BlazerF3OU) (181, _18_5mmHKFABARMFP612Gauge) (182, _18_5mmHKCAWSFA12Gauge) (200, _18_5mmBaikalMP153SA12Gauge) (201, _18_5mmBandayevskyRB1212Gauge) (202, _18_5mmMolotBekasM12Gauge) (203, _16_8mmMolotBekasM16Gauge) (204, _18_5mmTOZ19412Gauge) (205, _23mmKS23) (206, MTs255Revoler12Gauge) (207, _18_5mmRMB9312Gauge) (208, _18_5mmSaiga12SA12Gauge) (209, _15_6mmSaiga12SA20Gauge) (210, _10_4mmSaiga12SA_410Bore) (211, _18_5mmVepr12SA12Gauge) (212, _18_5mmFort50012Gauge) (220, _18_5mmNorincoHP9112Gauge));
conv_enum!(LifeFormHumanSpecificMortars, u8; (0, Others) (30, _60mmM224) (50, _81mmF2) (51, _81mmL16) (52, _81mmM252));
conv_enum!(LifeFormHumanSpecificHandGuns, u8; (0, Other) (1, _5_45mmPSM) (30, _9mmMK3SLP) (31, _9mmBeretta92S92FS) (32, _9mmHKUSP) (33, _9mmStechkinAPS) (34, _9mmMakarovPM) (35, _9mmSmithandWessonSD) (36, _9mmGlock17) (37, _9mmSIGSauerM17) (38, _9mmSIGPro) (39, _9mmSmithandWessonSW1911) (40, _9mmSmithandWesson5900series) (41, _45CalM1911) (50, _9_07mmRugerGP100) (60, _10mmGlock20));
conv_enum!(LifeFormHumanSpecificWeaponNonspecific, u8; (0, Other) (10, Knife) (50, Machete) (100, ExplosiveVest) (150, M18A1Claymore));
conv_enum!(LifeFormHumanSpecificGrenadeLaunchers, u8; (0, Other) (1, _40x46mmArsenalUGGLM1) (2, _40x46mmArsenalMSGL) (3, _40mmVOGArsenalMSGL) (4, _40x46mmArsenalUBGLM16) (5, _40x46mmArsenalUBGLM8) (6, _40x46mmArsenalUBGLM7) (10, _30mmBS1Tishina) (11, _40mmBTS203) (12, _40mmIndumilIMC40) (20, _40mmVOGBG15) (21, _40mmVOGGP25Kostoyor) (22, _40mmVOGGP30Obuvka) (23, _40mmVOGGP34) (24, _40mmVOGRGM40Kastet) (25, _40mmVOGRG6) (30, _40x46mmM79) (31, _40x46mmM203) (32, _40x36mmM320) (35, _40x46mmCIS40GL) (36, _40x46mmEAGLEGL) (37, _40x46mmHKAG36) (38, _40x46mmHKAGCGLM) (39, _40x46mmHK69A1) (40, _40x46mmBerettaGLX160) (41, _40x46mmARDEUBGL) (42, _40x46mmXML148) (43, _40x46mmChinaLakeGL) (44, _40x46mmHawkMM1) (50, _25x40mmXM25CDTE) (60, _37mmMilkor3738LLStopper) (61, _40mmMilkor40GL) (62, _40mmMilkorMGL) (65, _40x47mmPalladwz1974) (66, _40x47mmPalladwz1983) (70, UGL200CanisterRWGL3) (80, _20x30mmSTDaewooK11) (90, _35mmType91BreechLoadGL) (95, _40x53mmCZW40) (100, _45mmDP64) (105, _20x42mmNeopupPAW20));
conv_enum!(LifeFormHumanSpecificMachineGuns, u8; (0, Other) (10, _5_56x45mmXM214MicrogunSixPak) (11, _7_62x51mmM134XM196Minigun) (20, _5_56x45mmM249FNMinimiSAWLMG) (21, _5_56x45mmFNMinimiMk3LMG) (22, _7_62x51mmFNMinimi7_62Mk3GPMG) (25, _7_62x63mmM1941Johnson) (26, _7_62x63mmM1918BAR) (27, _7_62x51mmM1919A4Mk21Mod0BrowningMMG) (28, _7_62x63mmM1919A6BrowningMMG) (29, _7_62x51mmM37BrowningMMG) (30, _5_56x45mmAresShrike5_56LMG) (31, _5_56x45mmLSATLMG) (32, _5_56x45mmCMG1LMG) (33, _5_56x45mmCMG2LMG) (34, _5_56x45mmStoner63ALMG) (35, _5_56x45mmUltimax100LMG) (36, _5_56x54mmBerettaAS7090LMG) (37, _5_56x45mmCETMEAmeliLMG) (38, _5_56x45mmIMINegevLMG) (39, _5_56x45mmINSASLMG) (40, _5_56x45mmAUGLMG) (41, _5_56x45mmAUGHBARLMG) (43, _5_56x45mmHKMG4LMG) (44, _5_56x45mmHK23GR9LMG) (46, _5_56x45mmM27IARSAW) (47, _5_56x45mmL86LSW) (48, _5_56x45mmDaewooK3LMG) (49, _5_56x45mmVectorMiniSSGPMG) (50, _7_62x51mmM60GPMG) (51, _7_62x51mmM60E3GPMG) (52, _7_62x51mmM60E4GPMG) (53, _7_62x51mmM60E6GPMG) (55, _7_62x51mmMark48GMPG) (58, _7_62x51mmM240FNMAG58GPMG) (59, _7_62x51mmM240E4M240BGPMG) (60, _7_62x51mmM240E1M240DGPMG) (61, _7_62x51mmM240GGPMG) (62, _7_62x51mmM240E5M240HGPMG) (63, _7_62x51mmM240LGPMG) (65, _7_62x39mmKk62LMG) (70, _7_62x51mmVectorSS77GPMG) (71, _7_62x51mmSIGMG7103GPMG) (72, _7_62x51mmSterling7_62GMPG) (73, _7_62x51mmSumitomoType62GPMG) (74, _7_62x51mmDaewooK12GPMG) (75, _7_62x51mmMG51GPMG) (76, _7_62x51mmRheinmetallMG3) (77, _7_62x51mmRheinmetallMG3KWS) (80, _7_62x51mmMG5HK121GPMG) (81, _7_62x51mmHK21GPMG) (85, _7_62x51mmAA52GPMP) (86, _7_62x51mmUKM2000GPMG) (88, _7_62x54mmUkvz_59GPMG) (89, _7_92x57mmMG42GPMG) (100, _12_7x99mmM2A1BrowningHMG) (101, _12_7x99mmM2HBBrowningHMG) (102, _12_7x99mmM2HBQCBBrowningHMG) (105, _12_7x99mmM85CHMG) (108, _12_7x99mmRheinmetallRMG_50HMG) (110, _12_7x99mmHK25HMG) (112, _12_7x99mmCIS50MG) (120, _5_45x39mmIP2LMG) (121, _5_45x39mmNikonovLMG) (122, _5_45x39mmM74RPK) (125, _7_62x39mmM43RPK) (126, _7_62x39mmRPDSAW) (127, _7_62x39mmZastavaM72) (128, _7_62x39mmType81LMG) (135, _7_62x51mmZastavaM77) (140, _7_62x54mmPKGPMG) (141, _7_62x54mmAEK999GPMP) (142, _7_62x54mmPechenegGPMG) (143, _7_62x54mmZastavaM84) (144, _7_62x54mmType67GPMG) (145, _7_62x54mmType80GPMG) (150, _12_7x108mmNSVHMG) (151, _12_7x108mmKordHMG) (152, _12_7x108mmKPD12_7HMG) (153, _12_7x108mmZastavaM02CoyotoeHMG) (154, _12_7x108mmZastavaM87) (155, _12_7x108mmType77HMG) (156, _12_7x108mmW85HMG) (157, _12_7x108mmType90HMG) (164, _5_8x42mmQJY88LMG) (165, _5_8x42mmQBB95DBP87LMG) (166, _5_56x45mmQBB951LMG));
conv_enum!(LifeFormHumanSpecificGrenadeLaunchingMachineGun, u8; (0, Other) (20, _40x53mmHKGMG) (25, _40x53mmMk47Striker) (26, _40mmM75) (27, _40mmM129) (28, _40x46mmXM174) (29, _40x46mmMk18Mod0) (30, _40x53mmMk19) (31, _40x46mmMk20Mod0) (40, _30x29mmRAG30SAG30) (41, _30x29mmAGS17Plamya) (42, _30x29mmAGS30Atlant) (43, _40mmVOGAGS40Balkan) (44, _40x53mmSBLAG40) (50, _40x53mmVektorY3) (55, _40x53mmCIS40) (60, _40x56mmHowaType96) (65, _40x53mmDaewooPrecisionIndustriesK4) (70, _25x59mmXM307AdvancedCrewServedWeapon) (80, _35x32mmQLZ87));
conv_enum!(LifeFormHumanSpecificAntiTankRockets, u8; (0, Other) (10, _82mmB300) (11, _82mmShipon) (12, _83mmMK153Mod0SMAW) (20, _66mmM72LAW) (21, _66mmM72A1LAW) (22, _66mmM72A2LAW) (23, _66mmM72A3LAW) (24, _66mmM72A4LAW) (25, _66mmM72A5LAW) (26, _66mmM72A6LAW) (27, _66mmM72A7LAW) (28, _66mmM72E8LAW) (29, _66mmM72E9LAW) (30, _66mmM72E10LAW) (31, _66mmM72ASLAW) (35, _94mmLAW80) (40, _60mmM1Bazooka) (41, _60mmM1A1Bazooka) (42, _60mmM9Bazooka) (43, _60mmM9A1Bazooka) (44, _89mmM20SuperBazooka) (45, _89mmM20A1SuperBazooka) (46, _89mmM20B1SuperBazooka) (47, _89mmM20A1B1SuperBazooka) (48, _89mmM25ThreeShotBazooka) (49, _89mmInstalazaM65) (50, _90mmInstalazaC90) (51, _90mmC90CR) (52, _90mmC90CRAM) (53, _90mmC90CRBK) (54, _90mmC90CRIN) (60, _60mmPzF3) (61, _60mmPzF3IT) (62, _60mmPzF3Bunkerfaust) (65, _44mmPzF44) (70, _30mmPanzerfaust30) (71, _50mmPanzerfaust60) (72, _60mmPanzerfaust100) (73, _60mmPanzerfaust150) (75, _88mmPanzerschreckRPzB) (80, _83mmRL83Blindicide) (81, _100mmRL100Blindicide) (85, _90mmM79Osa) (86, _64mmM80Zolja) (90, _67mmArmburstCrossbow) (93, _40mmType69RPG) (95, _89mmPIAT) (100, _40mmRPG2) (101, _64mmRPG18Mukha) (102, _72_5mmRPG22Netto) (103, _72_5mmRPG26Aglen) (104, _105mmRPG29Vampir) (105, _105mmRPG30Kryuk) (106, _105mmRPG32Nashshab) (110, _40mmRPG7) (111, _40mmPSRL1) (112, _40mmGS777PSRL2) (120, _68mmRPG76Komar) (125, _120mmSEPDard120) (128, _58mmWASP58) (130, _73mmLRAC7350) (131, _89mmLRAC89F1STRIM) (135, _90mmMATADOR) (136, _90mmMATADORMP) (137, _90mmMATADORWB) (138, _90mmMATADORAS) (140, _78mmMARAAntiTankRocketLauncher) (145, _120mmType98PF98));
conv_enum!(LifeFormHumanSpecificAntiTankMissiles, u8; (0, Other) (30, _120mmType64MATKAM3) (31, _153mmType79JyuMATKAM9) (32, _120mmType87ChuMAT) (33, _140mmType01LMAT) (58, _140mmM47Dragon) (59, _140mmSaeghe12) (60, _127mmFGM148Javelin) (63, _139mmFGM172SRAW) (64, _139mmFGM172BSRAWMPV) (68, _152mmBGM71TOW) (69, _152mmOrevTOWII) (75, _120mmVickersVigilantClevite) (80, _110mmBantam) (81, _150mmRBS56BILL1) (82, _150mmRBS562BILL2) (85, _130mmSpikeSR) (86, _130mmSpikeMR) (87, _130mmSpikeLR) (95, _60mmMosquito) (98, _160mmSS_10) (100, _103mmMILAN) (101, _115mmMILAN2) (102, _115mmMILAN2T) (103, _115mmMILAN3) (104, _115mmMILANER) (105, _136mmERYX) (107, _152mmEntac) (110, _125mmRAAD) (111, _125mmIRAADT) (112, _152mmToophan) (113, _152mmToophan2) (114, _152mmToophan5) (120, _136mmBumbar) (125, _130mmShershenPK2) (126, _152mmShershenQP2B) (130, _130mmMectronMSS1_2) (140, _120mmHJ8) (141, _120mmHJ8A) (142, _120mmHJ8B) (143, _120mmHJ8C) (144, _120mmHJ8D) (145, _120mmHJ8E) (146, _120mmHJ8F) (147, _120mmHJ8FAE) (148, _120mmHJ8L) (149, _120mmHJ8H) (150, _120mmHJ8S) (151, _120mmBaktarShikan) (152, _120mmHJ11) (153, _152mmHJ9A) (154, _135mmHJ12RedArrow) (155, _125mmHJ73MCLOS) (156, _125mmHJ73BSACLOS) (157, _125mmHJ73CSACLOSERA) (170, _125mmAT3SaggerA9M14Malyutka) (171, _125mmAT3BSaggerB9M14MMalyutkaM) (172, _125mmAT3CSaggerC9M14PMalyutkaP) (173, _125mmAT3DSaggerD9M142Malyutka2) (174, _125mmSusongPo) (175, _125mmAT3CPOLK) (176, _125mmKunWu1) (177, _125mmMaliutkaM2T) (178, _120mmAT4ASpigotA9M111Fagot) (179, _120mmAT4BSpigotB9M1112Fagot) (180, _120mmAT4CSpigotC9M111MFaktoriya) (181, _135mmAT5ASpandrel9M113Kronkurs) (182, _135mmAT5BSpandrel9M113MKronkursM) (183, _135mmTosan) (184, _94mmAT7Saxhorn9K115Metis) (185, _130mmAT13Saxhorn29K1152MetisM) (186, _152mmAT14Spriggan9M133Kornet) (187, _152mmDehlavie) (200, _102mmMathogo));
conv_enum!(LifeFormHumanSpecificManPortableAirDefenseSystem, u8; (0, Other) (1, _70mmFIM43Redeye) (2, _70mmFIM92Stinger) (10, _76mmBlowpipe) (11, _76mmStarburst) (12, _130mmStarstreakHVM) (15, _90mmMistral) (20, _72mm9K32MStrela2) (21, _72mm9K36Strela3) (22, _72mm9K38Igla) (23, _72mm9K310IglaM) (24, _72mm9K333Verba) (25, _72mm9K338IglaS) (26, _72mm9K32MStrela2M) (30, _72mmHN5HongYing5) (31, _72mmQW1Vanguard) (32, _72mmQW2Vanguard2) (33, _90mmQW3) (34, _72mmFN6) (45, _71mmMisagh1) (46, _71mmMisagh2) (50, _80mmType91KinSAM) (55, _80mmKPSAMShunGung) (60, _106mmRBS70));
conv_enum!(LifeFormHumanSpecificRecoillessRifles, u8; (0, Other) (15, _84mmM136AT4CS) (20, _57mmM18RR) (21, _75mmM20RR) (22, _120mmM28DavyCrockett) (23, _155mmM29DavyCrockett) (24, _106mmM40RecoillessRifle) (25, _82mmM60RR) (26, _90mmM67RR) (30, _84mmM1CarlGustav) (31, _84mmM2CarlGustav) (32, _84mmM3CarlGustav) (33, _84mmM4CarlGustav) (35, _74mmPansarskottm68Miniman) (40, _84mmALAC) (45, _82mmB10RR) (46, _107mmB11RR) (50, _80mmBredaFolgore) (55, _120mmBATRR) (60, _73mmSPG9Kopye) (65, _88mmRCL3_45in) (70, _90mmPvpj110) (75, _50mmJagdfaust) (80, _30mmRheinmetallRMK30) (90, _88mm55S55Raikka) (91, _95mm95S5861) (95, _73mmLG40) (96, _105mmLG40) (97, _105mmLG42));
conv_enum!(LifeFormHumanSpecificFlameRockets, u8; (0, Other) (20, _66mmM202Flash) (30, _62mmFHJ84) (40, _90mmC90CRFIM) (50, _93mmRPOAShmel) (51, _93mmRPOZShmel) (52, _93mmRPODShmel));
conv_enum!(LifeFormHumanSpecificFlameThrowers, u8; (0, Other) (10, Handflammpatrone) (11, FmW41) (20, M1A1) (21, M2A17) (22, M9A17) (30, LPO50) (35, KPattern) (36, PortableNo2AckPack) (37, Marsden) (38, Harvey) (45, ROKS2) (46, ROKS3) (50, Type93) (51, Type100));
conv_enum!(LifeFormHumanSpecificDroneGuns, u8; (0, Other) (15, DroneGunTactical) (16, DroneGunMKII));
conv_enum!(LifeFormHumanSpecificLogisticsEQClass, u8; (1, SlingLoadPendant));
conv_enum!(LifeFormHumanSpecificPersonalElectronicsClass, u8; (1, CellPhone));
conv_enum!(LifeFormHumanSpecificLasersClass, u8; (1, GenericLaserDesignator) (2, GenericLaserPointer));
conv_enum!(TransmitterDetailSATCOMModulation, u16; (0, Other) (1, NoDelay));
conv_enum!(SupplyDomain, u8; (0, NotUsed) (1, Class1Subsistence) (2, Class2ClothingIndividualEquipmentToolsAdminSupplies) (3, Class3PetroleumOilsLubricants) (4, Class4ConstructionMaterials) (5, Class5Ammunition) (6, Class6PersonnelDemandItems) (7, Class7MajorItems) (8, Class8MedicalMaterial) (9, Class9RepairPartsandComponents) (10, Class10MaterialtoSupportNonMilitaryPrograms) (11, Class11Supplies) (12, Class12SlingLoads));
conv_enum!(Class1SupplyCategorySubsistence, u8; (1, Other) (2, ANonPerishable) (3, CCombatRations) (4, RRefrigerated) (5, SOtherNonRefrigerated) (6, WWater));
conv_enum!(Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies, u8; (1, Other) (2, AAir) (3, BGroundSupportMateriel) (4, EGeneralSupplies) (5, FClothing) (6, GElectronics) (7, MWeapons) (8, TIndustrialSupplies));
conv_enum!(Class3SupplyCategoryPetroleumOilsLubricants, u8; (1, Other) (2, APOLforAirVehicles) (3, WPOLforLandVehicles) (4, PPackagedPOL));
conv_enum!(Class4SupplyCategoryConstructionMaterials, u8; (1, Other) (2, AConstruction) (3, BBarrier));
conv_enum!(Class6SupplyCategoryPersonnelDemandItems, u8; (1, Other));
conv_enum!(Class7SupplyCategoryMajorItems, u8; (1, Other) (2, AAir) (3, BGroundSupportMateriel) (4, DAdminVehicles) (5, GElectronics) (6, JRacksAdaptorsPylons) (7, KTacticalVehicles) (8, LMissiles) (9, MWeapons) (10, NSpecialWeapons) (11, XAircraftEngines) (20, DropTank) (21, ConformalFuelTank) (22, LuggagePod) (23, ECMPod) (24, ParaDrogue) (25, TargetingPod) (26, Fairing) (27, AirRefuellingPod) (28, HeavyAirdrop) (29, ContainerDeliverySystemAirdrop) (30, RocketPodLauncher) (31, TacticalPod) (32, RECCEpod) (33, FLIRpod));
conv_enum!(Class8SupplyCategoryMedicalMaterial, u8; (1, Other) (2, AMedicalMateriel) (3, BBloodFluids));
conv_enum!(Class9SupplyCategoryRepairPartsandComponents, u8; (1, Other) (2, AAir) (3, BGroundSupportMateriel) (4, DAdminVehicles) (5, GElectronics) (6, KTacticalVehicles) (7, LMissiles) (8, MWeapons) (9, NSpecialWeapons) (10, XAircraftEngines));
conv_enum!(Class10SupplyCategoryMaterialToSupportNonMilitaryPrograms, u8; (1, Other));
conv_enum!(Class11SupplyCategorySupplies, u8; (1, Other) (2, Pallets) (3, FuelTanksDrumsandBladders) (4, Chests) (5, Boxes));
conv_enum!(Class12SupplyCategorySlingLoads, u8; (1, Other) (2, SlingLoadBlivet) (3, SlingLoadCrate) (4, SlingLoadWaterBucket) (5, SlingLoadVehicles) (6, SlingLoadHowitzer) (7, SlingLoadCollapsible) (8, SlingLoadBladder) (9, SlingLoadPalletofCrates) (10, SlingLoadHelicopters) (11, SlingLoadHoist) (12, SlingLoadConcreteBlock));
conv_enum!(LifeSavingEquipment, u8; (1, Lifeboat) (2, Liferaft) (3, MOBBoat) (4, Lifebuoy));
conv_enum!(IslandSubcategory, u16; (0, Other) (1, Islands10002499km2) (2, Islands25004999km2) (3, Islands50009999km2) (4, Islands1000024999km2) (5, Islands2500099999km2) (6, Islands100000km2andGreater));
conv_enum!(Link11MessageSubType, u8; (0, NoStatement) (1, Interrogation) (2, DataStart) (3, Data) (4, DataStop));
conv_enum!(Link11MessageTypeIdentifier, u8; (0, NoStatement) (1, NetTest) (2, RollCall) (3, PicketReply) (4, ShortBroadcast) (5, Broadcast) (6, NetSync));
conv_enum!(Link11DataSignallingRate, u8; (0, NoStatement) (1, _1364bps) (2, _2250bps) (3, _1200bps) (4, _2400bps));
conv_enum!(Link11SignalIntegrationInterval, u8; (0, NoStatement) (1, _9ms) (2, _18ms));
conv_enum!(Link11SignalWaveform, u8; (0, NoStatementCLEWFormat) (1, ConventionalLinkElevenWaveform) (2, SingleToneLinkElevenWaveform));
conv_enum!(Link11_11BEncryptionFlag, u8; (0, NoEncryptionUsed) (1, EncryptionUsed));
conv_enum!(SISOSTD002Version, u8; (0, SISOSTD0022006) (1, SISOSTD0022021));
conv_enum!(Link11BLinkState, u8; (0, NoStatement) (1, Inactive) (2, Ready) (3, Active) (4, Operational));
conv_enum!(Link11BModeofOperation, u16; (0, NoStatement) (1, FullTransmissionofData) (2, LimitedTransmissionofData) (3, Receiveonly));
conv_enum!(Link11BMessageSubType, u8; (0, NoStatement) (1, TransmissionFrame) (2, StandbySignal));
conv_enum!(Link11BDataSignalingRate, u8; (0, NoStatement) (3, _1200bps) (4, _2400bps) (5, _600bps));
conv_enum!(Link11BModulationStandard, u8; (0, NoStatement) (1, CCITTV_23));
conv_enum!(CIGIExtensionPacketID, u16; (4096, ImageCaptureRequestpacketID) (4097, ImageCaptureResponsepacketID) (4098, StateNotificationRequestPacketID) (4099, StateNotificationResponsePacketID) (5000, GlobalRefFrameDefPacketID));
conv_enum!(Link16Version, u8; (0, NoStatement) (1, MILSTD6016C) (2, MILSTD6016D) (3, MILSTD6016E) (4, MILSTD6016F) (5, MILSTD6016FC1) (103, STANAG5516Ed3) (104, STANAG5516Ed4) (105, STANAG5516Ed5) (106, STANAG5516Ed6) (108, STANAG5516Ed8));
conv_enum!(AircraftIDSource, u8; (0, ModeSAircraftIdentificationFieldValue) (1, GICBIFFDataRecordAvailable));
conv_enum!(ClothingIRSignature, u8; (0, StandardClothing) (1, Camouflage) (2, ThermalBlanket) (3, Other));
conv_enum!(DamageArea, u8; (0, DamageArea1orNotApplicableifDamageAreasarenotdefined_) (1, DamageArea2) (2, DamageArea3) (3, DamageArea4) (4, DamageArea5) (5, DamageArea6) (6, DamageArea7) (7, DamageArea8));

conv_flags!(FrozenBehavior, u8);
conv_flags!(ObjectStateAppearanceGeneral, u16);

conv_rec!(odr::common::data_types::acoustic_beam_data::AcousticBeamData, 4; beam_data_length: 0, beam_id_number: 1, pad2: 2, fundamental_data_parameters: 3);
conv_rec!(odr::common::data_types::acoustic_beam_fundamental_parameter::AcousticBeamFundamentalParameter, 6; active_emission_parameter_index: 0, scan_pattern: 1, beam_center_azimuth: 2, azimuthal_beamwidth: 3, beam_center_de: 4, de_beamwidth: 5);
conv_rec!(odr::common::data_types::acoustic_emitter_system::AcousticEmitterSystem, 3; acoustic_name: 0, acoustic_function: 1, acoustic_id: 2);
conv_rec!(odr::common::data_types::acoustic_emitter_system_data::AcousticEmitterSystemData, 6; emitter_system_data_length: 0, number_of_beams: 1, pad2: 2, acoustic_emitter_system: 3, emitter_location: 4, beam_records: 5);
conv_rec!(odr::common::data_types::aggregate_id::AggregateId, 3; site: 0, application: 1, aggregate_id: 2);
conv_rec!(odr::common::data_types::aggregate_marking::AggregateMarking, 2; character_set: 0, characters: 1);
conv_rec!(odr::common::data_types::angular_velocity_vector::AngularVelocity, 3; rate_about_x_axis: 0, rate_about_y_axis: 1, rate_about_z_axis: 2);
conv_rec!(odr::common::data_types::apa_data::ApaData, 2; parameter_index: 0, parameter_value: 1);
conv_rec!(odr::common::data_types::attribute_record::AttributeRecord, 3; record_type: 0, record_length: 1, record_specific_fields: 2);
conv_rec!(odr::common::data_types::attribute_record_set::AttributeRecordSet, 3; entity_id: 0, number_of_attribute_records: 1, attribute_records: 2);
conv_rec!(odr::common::data_types::beam_data::BeamData, 5; beam_azimuth_center: 0, beam_azimuth_sweep: 1, beam_elevation_center: 2, beam_elevation_sweep: 3, beam_sweep_sync: 4);
conv_rec!(odr::common::data_types::clock_time::ClockTime, 2; hour: 0, time_past_hour: 1);
conv_lit!(odr::common::data_types::datum_records::FixedDatumRecord, 2; datum_id: 0, datum_value: 1);
conv_lit!(odr::common::data_types::datum_records::VariableDatumRecord, 4; datum_id: 0, length_bits: 1, value: 2);
conv_rec!(odr::common::data_types::dead_reckoning_parameters::DeadReckoningParameters, 4; dead_reckoning_algorithm: 0, dead_reckoning_other_parameters: 1, entity_linear_acceleration: 2, entity_angular_velocity: 3);
conv_rec!(odr::common::data_types::directed_energy_damage::DirectedEnergyDamage, 12; record_type: 0, record_length: 1, damage_location: 3, damage_diameter: 4, temperature: 5, component_identification: 6, component_damage_status: 7, component_visual_damage_status: 8, component_visual_smoke_color: 9, fire_event_id: 10);
conv_rec!(odr::common::data_types::electromagnetic_emission_beam_data::ElectromagneticEmissionBeamData, 10; beam_data_length: 0, beam_id_number: 1, beam_parameter_index: 2, fundamental_parameter_data: 3, beam_function: 4, number_of_track_jam_targets: 5, high_density_track_jam: 6, pad4: 7, jamming_mode_sequence: 8, track_jam_targets: 9);
conv_rec!(odr::common::data_types::electromagnetic_emission_system_data::ElectromagneticEmissionSystemData, 6; system_data_length: 0, number_of_beams: 1, emissionspadding2: 2, emitter_system: 3, location: 4, beam_data_records: 5);
conv_rec!(odr::common::data_types::emitter_system::EmitterSystem, 3; emitter_name: 0, function: 1, emitter_id_number: 2);
conv_rec!(odr::common::data_types::entity_coordinate_vector::EntityCoordinateVector, 3; x_coordinate: 0, y_coordinate: 1, z_coordinate: 2);
conv_rec!(odr::common::data_types::entity_id::EntityId, 2; simulation_address: 0, entity_id: 1);
conv_rec!(odr::common::data_types::entity_marking::EntityMarking, 2; entity_marking_character_set: 0, entity_marking_string: 1);
conv_rec!(odr::common::data_types::entity_type::EntityType, 7; kind: 0, domain: 1, country: 2, category: 3, subcategory: 4, specific: 5, extra: 6);
conv_rec!(odr::common::data_types::environment::Environment, 4; environment_type: 0, length: 1, index: 2, padding: 3);
conv_rec!(odr::common::data_types::euler_angles::EulerAngles, 3; psi: 0, theta: 1, phi: 2);
conv_rec!(odr::common::data_types::event_id::EventId, 2; simulation_address: 0, event_identifier: 1);
conv_rec!(odr::common::data_types::fundamental_operational_data::FundamentalOperationalData, 10; system_status: 0, data_field1: 1, information_layers: 2, data_field2: 3, parameter1: 4, parameter2: 5, parameter3: 6, parameter4: 7, parameter5: 8, parameter6: 9);
conv_rec!(odr::common::data_types::fundamental_parameter_data::FundamentalParameterData, 10; frequency: 0, frequency_range: 1, effective_radiated_power: 2, pulse_repetition_frequency: 3, pulse_width: 4, beam_azimuth_center: 5, beam_azimuth_sweep: 6, beam_elevation_center: 7, beam_elevation_sweep: 8, beam_sweep_sync: 9);
conv_lit!(odr::common::data_types::grid_axis_descriptor::GridAxisDescriptor, 6; domain_initial: 0, domain_final: 1, domain_points: 2, interleaf_factor: 3, axis_type: 4, data: 5);
conv_lit!(odr::common::data_types::grid_data_record::GridDataRecord, 3; sample_type: 0, data_representation: 1, data: 2);
conv_rec!(odr::common::data_types::iff_fundamental_parameter_data::IFFFundamentalParameterData, 7; erp: 0, frequency: 1, pgrf: 2, pulse_width: 3, burst_length: 4, applicable_modes: 5, system_specific_data: 6);
conv_rec!(odr::common::data_types::intercom_communications_parameters::IntercomCommunicationsParameters, 3; record_type: 0, record_length: 1, record_specific_field: 2);
conv_rec!(odr::common::data_types::layer_header::LayerHeader, 3; layer_number: 0, layer_specific_information: 1, length: 2);
conv_rec!(odr::common::data_types::linear_acceleration::LinearAcceleration, 3; first_vector_component: 0, second_vector_component: 1, third_vector_component: 2);
conv_rec!(odr::common::data_types::linear_segment_parameter::LinearSegmentParameter, 11; segment_number: 0, segment_modification: 1, general_segment_appearance: 2, specific_segment_appearance: 3, segment_location: 4, segment_orientation: 5, segment_length: 6, segment_width: 7, segment_height: 8, segment_depth: 9);
conv_rec!(odr::common::data_types::linear_velocity::LinearVelocity, 3; first_vector_component: 0, second_vector_component: 1, third_vector_component: 2);
conv_rec!(odr::common::data_types::minefield_identifier::MinefieldIdentifier, 2; simulation_address: 0, minefield_number: 1);
conv_rec!(odr::common::data_types::modulation_type::ModulationType, 4; spread_spectrum: 0, major: 1, detail: 2, system: 3);
conv_rec!(odr::common::data_types::munition_descriptor::MunitionDescriptor, 5; munition_type: 0, warhead: 1, fuse: 2, quantity: 3, rate: 4);
conv_rec!(odr::common::data_types::named_location::NamedLocation, 2; station_name: 0, station_number: 1);
conv_rec!(odr::common::data_types::object_identifier::ObjectIdentifier, 2; simulation_address: 0, object_number: 1);
conv_rec!(odr::common::data_types::object_type::ObjectType, 4; domain: 0, object_kind: 1, category: 2, subcategory: 3);
conv_rec!(odr::common::data_types::point::Point, 2; x: 0, y: 1);
conv_rec!(odr::common::data_types::propulsion_system_data::PropulsionSystemData, 2; power_setting: 0, engine_rpm: 1);
conv_rec!(odr::common::data_types::radio_entity_type::RadioEntityType, 6; entity_kind: 0, domain: 1, country: 2, category: 3, nomenclature_version: 4, nomenclature: 5);
conv_rec!(odr::common::data_types::record_specification::RecordSpecification, 2; number_of_record_sets: 0, record_sets: 1);
conv_lit!(odr::common::data_types::record_specification_element::RecordSpecificationElement, 5; record_id: 0, record_set_serial_number: 1, record_length: 2, record_count: 3, record_values: 4);
conv_rec!(odr::common::data_types::relationship::Relationship, 2; nature: 0, position: 1);
conv_rec!(odr::common::data_types::secondary_operational_data::SecondaryOperationalData, 3; operational_data1: 0, operational_data2: 1, number_of_iff_fundamental_parameter_records: 2);
conv_rec!(odr::common::data_types::shaft_rpms::ShaftRPMs, 3; current_shaft_rpms: 0, ordered_shaft_rpms: 1, shaft_rpm_rate_of_change: 2);
conv_rec!(odr::common::data_types::simulation_address::SimulationAddress, 2; site_id: 0, application_id: 1);
conv_rec!(odr::common::data_types::simulation_id::SimulationIdentifier, 2; simulation_address: 0, reference_number: 1);
conv_rec!(odr::common::data_types::standard_variable_records::StandardVariableRecords, 3; record_type: 0, record_length: 1, record_specific_fields: 2);
conv_rec!(odr::common::data_types::standard_variable_specification::StandardVariableSpecification, 2; number_of_standard_variable_records: 0, standard_variable_records: 1);
conv_rec!(odr::common::data_types::supply_quantity::SupplyQuantity, 2; supply_type: 0, quantity: 1);
conv_rec!(odr::common::data_types::system_id::SystemId, 4; system_type: 0, system_name: 1, system_mode: 2, change_options: 3);
conv_rec!(odr::common::data_types::track_jam_target::TrackJamTarget, 3; track_jam: 0, emitter_id: 1, beam_id: 2);
conv_rec!(odr::common::data_types::variable_parameter::VariableParameter, 5; record_type: 0, variable_parameter_field1: 1, variable_parameter_field2: 2, variable_parameter_field3: 3, variable_parameter_field4: 4);
conv_rec!(odr::common::data_types::variable_transmitter_parameters::VariableTransmitterParameters, 3; record_type: 0, record_length: 1, record_specific_fields: 2);
conv_rec!(odr::common::data_types::vector3_double::Vector3Double, 3; x: 0, y: 1, z: 2);
conv_rec!(odr::common::data_types::vector3_float::Vector3Float, 3; x: 0, y: 1, z: 2);
conv_rec!(odr::common::data_types::vectoring_nozzle_system_data::VectoringNozzleSystemData, 2; horizontal_deflection_angle: 0, vertical_deflection_angle: 1);
conv_rec!(odr::common::data_types::velocity_vector::VelocityVector, 3; first_vector_component: 0, second_vector_component: 1, third_vector_component: 2);
conv_rec!(odr::common::data_types::world_coordinate::WorldCoordinate, 3; x: 0, y: 1, z: 2);

conv_pdu!(odr::distributed_emissions::ElectromagneticEmissionsPdu, 6; emitting_entity_id: 0, event_id: 1, state_update_indicator: 2, number_of_systems: 3, systems: 5);
conv_pdu!(odr::distributed_emissions::DesignatorPdu, 12; designating_entity_id: 0, code_name: 1, designated_entity_id: 2, designator_code: 3, designator_power: 4, designator_wavelength: 5, designator_spot_wrt_designated: 6, designator_spot_location: 7, dead_reckoning_algorithm: 8, entity_linear_acceleration: 11);
conv_pdu!(odr::distributed_emissions::UnderwaterAcousticPdu, 12; emitting_entity_id: 0, event_id: 1, state_change_update_indicator: 2, passive_parameter_index: 4, propulsion_plant_configuration: 5, number_of_shafts: 6, number_of_apas: 7, number_of_ua_emitter_systems: 8, shaft_rpms: 9, apa_data: 10, emitter_systems: 11);
conv_pdu!(odr::distributed_emissions::IFFPdu, 11; emitting_entity_id: 0, event_id: 1, relative_antenna_location: 2, system_id: 3, system_designator: 4, system_specific_data: 5, fundamental_operational_data: 6, layer_header: 7, beam_data: 8, secondary_operational_data: 9, iff_parameters: 10);
conv_pdu!(odr::distributed_emissions::SupplementalEmissionPdu, 8; originating_entity_id: 0, infrared_signature_representation_index: 1, acoustic_signature_representation_index: 2, radar_cross_section_signature_representation_index: 3, number_of_propulsion_systems: 4, number_of_vectoring_nozzle_systems: 5, propulsion_system_data: 6, vectoring_nozzle_system_data: 7);
conv_pdu!(odr::entity_information::EntityStatePdu, 13; entity_id: 0, force_id: 1, number_of_articulation_parameters: 2, entity_type: 3, alternative_entity_type: 4, entity_linear_velocity: 5, entity_location: 6, entity_orientation: 7, entity_appearance: 8, dead_reckoning_parameters: 9, entity_marking: 10, entity_capabilities: 11, articulation_parameter: 12);
conv_pdu!(odr::entity_information::CollisionPdu, 8; issuing_entity_id: 0, colliding_entity_id: 1, event_id: 2, collision_type: 3, velocity: 5, mass: 6, location_wrt_entity: 7);
conv_pdu!(odr::entity_information::CollisionElasticPdu, 15; issuing_entity_id: 0, colliding_entity_id: 1, event_id: 2, contact_velocity: 4, mass: 5, location_of_impact: 6, collision_intermediate_result_xx: 7, collision_intermediate_result_xy: 8, collision_intermediate_result_xz: 9, collision_intermediate_result_yy: 10, collision_intermediate_result_yz: 11, collision_intermediate_result_zz: 12, unit_surface_normal: 13, coefficient_of_restitution: 14);
conv_pdu!(odr::entity_information::EntityStateUpdatePdu, 8; entity_id: 0, number_of_variable_parameters: 2, entity_linear_velocity: 3, entity_location: 4, entity_orientation: 5, entity_appearance: 6, variable_parameter_records: 7);
conv_pdu!(odr::entity_information::AttributePdu, 10; originating_simulation_address: 0, attribute_record_pdu_type: 3, attribute_record_protocol_version: 4, master_attribute_record_type: 5, action_code: 6, number_of_attribute_record_sets: 8, attribute_record_sets: 9);
conv_pdu!(odr::entity_management::AggregateStatePdu, 20; aggregate_id: 0, force_id: 1, aggregate_state: 2, aggregate_type: 3, formation: 4, aggregate_marking: 5, dimensions: 6, orientation: 7, center_of_mass: 8, velocity: 9, number_of_dis_aggregates: 10, number_of_dis_entities: 11, number_of_silent_aggregate_types: 12, number_of_silent_entity_types: 13, aggregate_id_list: 14, entity_id_list: 15, silent_aggregate_system_list: 16, silent_entity_system_list: 17, number_of_variable_datum_records: 18, variable_datum_list: 19);
conv_pdu!(odr::entity_management::IsGroupOfPdu, 7; group_entity_id: 0, grouped_entity_category: 1, number_of_grouped_entities: 2, latitude: 4, longitude: 5, grouped_entity_descriptions: 6);
conv_pdu!(odr::entity_management::TransferOwnershipPdu, 7; originating_id: 0, receiving_id: 1, request_id: 2, required_reliability_service: 3, transfer_type: 4, transfer_entity_id: 5, record_information: 6);
conv_pdu!(odr::entity_management::IsPartOfPdu, 6; originating_entity_id: 0, receiving_entity_id: 1, relationship: 2, part_location: 3, named_location_id: 4, part_entity_type: 5);
conv_pdu!(odr::information_operations::InformationOperationsReportPdu, 9; originating_simulation_id: 0, io_simulation_source: 1, io_report_type: 2, io_attacker_entity_id: 4, primary_target_entity_id: 5, io_records: 8);
conv_pdu!(odr::information_operations::InformationOperationsActionPdu, 12; originating_simulation_id: 0, receiving_simulation_id: 1, request_id: 2, io_warfare_type: 3, io_simulation_source: 4, io_action_type: 5, io_action_phase: 6, io_attacker_entity_id: 8, io_primary_target_entity_id: 9, io_records: 11);
conv_pdu!(odr::logistics::ServiceRequestPdu, 6; receiving_entity_id: 0, servicing_entity_id: 1, service_type_requested: 2, number_of_supply_types: 3, supplies: 5);
conv_pdu!(odr::logistics::ResupplyOfferPdu, 6; receiving_entity_id: 0, supplying_entity_id: 1, number_of_supply_types: 2, supplies: 5);
conv_pdu!(odr::logistics::ResupplyReceivedPdu, 6; receiving_entity_id: 0, supplying_entity_id: 1, number_of_supply_types: 2, supplies: 5);
conv_pdu!(odr::logistics::ResupplyCancelPdu, 2; receiving_entity_id: 0, supplying_entity_id: 1);
conv_pdu!(odr::logistics::RepairCompletePdu, 4; receiving_entity_id: 0, repairing_entity_id: 1, repair: 2);
conv_pdu!(odr::logistics::RepairResponsePdu, 5; receiving_entity_id: 0, repairing_entity_id: 1, repair_result: 2);
conv_pdu!(odr::minefield::MinefieldStatePdu, 12; minefield_id: 0, minefield_sequence: 1, force_id: 2, number_of_perimeter_points: 3, minefield_type: 4, number_of_mine_types: 5, minefield_location: 6, minefield_orientation: 7, appearance: 8, protocol_mode: 9, perimeter_points: 10, mine_type: 11);
conv_pdu!(odr::minefield::MinefieldQueryPdu, 10; minefield_id: 0, requesting_entity_id: 1, request_id: 2, number_of_perimeter_points: 3, number_of_sensor_types: 5, data_filter: 6, requested_mine_type: 7, requested_perimeter_points: 8, sensor_types: 9);
conv_pdu!(odr::minefield::MinefieldDataPdu, 27; minefield_id: 0, requesting_entity_id: 1, minefield_sequence_number: 2, request_id: 3, pdu_sequence_number: 4, number_of_pdus: 5, number_of_mines_in_this_pdu: 6, number_of_sensor_types: 7, data_filter: 9, mine_type: 10, sensor_types: 11, mine_location: 12, ground_burial_depth_offset: 13, water_burial_depth_offset: 14, snow_burial_depth_offset: 15, mine_orientation: 16, thermal_contrast: 17, reflectance: 18, mine_emplacement_time: 19, mine_entity_id: 20, fusing: 21, scalar_detection_coefficient: 22, paint_scheme: 23, number_of_trip_wires: 24, number_of_vertices: 25, vertices: 26);
conv_pdu!(odr::minefield::MinefieldResponseNackPdu, 5; minefield_id: 0, requesting_entity_id: 1, request_id: 2, number_of_missing_pdus: 3, missing_pdu_sequence_numbers: 4);
conv_pdu!(odr::radio_communications::TransmitterPdu, 22; entity_id: 0, radio_id: 1, radio_entity_type: 2, transmit_state: 3, input_source: 4, number_of_variable_transmitter_parameters_records: 5, antenna_location: 6, relative_antenna_location: 7, antenna_pattern_type: 8, antenna_pattern_length: 9, frequency: 10, transmit_frequency_bandwidth: 11, power: 12, modulation_type: 13, crypto_system: 14, crypto_key_id: 15, modulation_parameter_length: 16, modulation_parameters: 19, antenna_pattern: 20, variable_transmitter_parameters: 21);
conv_pdu!(odr::radio_communications::SignalPdu, 8; entity_id: 0, radio_id: 1, encoding_scheme: 2, tdl_type: 3, sample_rate: 4, data_length: 5, samples: 6, data: 7);
conv_pdu!(odr::radio_communications::ReceiverPdu, 7; entity_id: 0, radio_id: 1, receiver_state: 2, received_power: 4, transmitter_radio_reference_id: 5, transmitter_radio_id: 6);
conv_pdu!(odr::radio_communications::IntercomSignalPdu, 8; intercom_reference_id: 0, intercom_number: 1, encoding_scheme: 2, tdl_type: 3, sample_rate: 4, data_length: 5, samples: 6, data: 7);
conv_pdu!(odr::radio_communications::IntercomControlPdu, 13; control_type: 0, communications_channel_type: 1, source_intercom_reference_id: 2, source_intercom_number: 3, source_line_id: 4, transmit_priority: 5, transmit_line_state: 6, command: 7, master_intercom_reference_id: 8, master_intercom_number: 9, master_channel_id: 10, intercom_parameters_length: 11, intercom_parameters: 12);
conv_pdu!(odr::simulation_management::CreateEntityPdu, 3; originating_entity_id: 0, receiving_entity_id: 1, request_id: 2);
conv_pdu!(odr::simulation_management::RemoveEntityPdu, 3; originating_entity_id: 0, receiving_entity_id: 1, request_id: 2);
conv_pdu!(odr::simulation_management::StartResumePdu, 5; originating_entity_id: 0, receiving_entity_id: 1, real_world_time: 2, simulation_time: 3, request_id: 4);
conv_pdu!(odr::simulation_management::StopFreezePdu, 7; originating_entity_id: 0, receiving_entity_id: 1, real_world_time: 2, reason: 3, frozen_behavior: 4, request_id: 6);
conv_pdu!(odr::simulation_management::AcknowledgePdu, 5; originating_entity_id: 0, receiving_entity_id: 1, acknowledge_flag: 2, response_flag: 3, request_id: 4);
conv_pdu!(odr::simulation_management::ActionRequestPdu, 8; originating_entity_id: 0, receiving_entity_id: 1, request_id: 2, action_id: 3, number_of_fixed_datum_records: 4, number_of_variable_datum_records: 5, fixed_datum_records: 6, variable_datum_records: 7);
conv_pdu!(odr::simulation_management::ActionResponsePdu, 8; originating_entity_id: 0, receiving_entity_id: 1, request_id: 2, request_status: 3, number_of_fixed_datum_records: 4, number_of_variable_datum_records: 5, fixed_datum_records: 6, variable_datum_records: 7);
conv_pdu!(odr::simulation_management::DataQueryPdu, 8; originating_entity_id: 0, receiving_entity_id: 1, request_id: 2, time_interval: 3, number_of_fixed_datum_records: 4, number_of_variable_datum_records: 5, fixed_datum_records: 6, variable_datum_records: 7);
conv_pdu!(odr::simulation_management::SetDataPdu, 8; originating_entity_id: 0, receiving_entity_id: 1, request_id: 2, number_of_fixed_datum_records: 4, number_of_variable_datum_records: 5, fixed_datum_records: 6, variable_datum_records: 7);
conv_pdu!(odr::simulation_management::DataPdu, 8; originating_entity_id: 0, receiving_entity_id: 1, request_id: 2, number_of_fixed_datum_records: 4, number_of_variable_datum_records: 5, fixed_datum_records: 6, variable_datum_records: 7);
conv_pdu!(odr::simulation_management::EventReportPdu, 8; originating_entity_id: 0, receiving_entity_id: 1, event_type: 2, number_of_fixed_datum_records: 4, number_of_variable_datum_records: 5, fixed_datum_records: 6, variable_datum_records: 7);
conv_pdu!(odr::simulation_management::CommentPdu, 6; originating_entity_id: 0, receiving_entity_id: 1, number_of_fixed_datum_records: 2, number_of_variable_datum_records: 3, fixed_datum_records: 4, variable_datum_records: 5);
conv_pdu!(odr::simulation_management_with_reliability::CreateEntityReliablePdu, 6; originating_entity_id: 0, receiving_entity_id: 1, required_reliability_service: 2, request_id: 5);
conv_pdu!(odr::simulation_management_with_reliability::RemoveEntityReliablePdu, 6; originating_entity_id: 0, receiving_entity_id: 1, required_reliability_service: 2, request_id: 5);
conv_pdu!(odr::simulation_management_with_reliability::StartResumeReliablePdu, 8; originating_entity_id: 0, receiving_entity_id: 1, real_world_time: 2, simulation_time: 3, required_reliability_service: 4, request_id: 7);
conv_pdu!(odr::simulation_management_with_reliability::StopFreezeReliablePdu, 8; originating_entity_id: 0, receiving_entity_id: 1, real_world_time: 2, reason: 3, frozen_behavior: 4, required_reliability_service: 5, request_id: 7);
conv_pdu!(odr::simulation_management_with_reliability::AcknowledgeReliablePdu, 5; originating_entity_id: 0, receiving_entity_id: 1, acknowledge_flag: 2, response_flag: 3, request_id: 4);
conv_pdu!(odr::simulation_management_with_reliability::ActionRequestReliablePdu, 12; originating_entity_id: 0, receiving_entity_id: 1, required_reliability_service: 2, request_id: 5, action_id: 6, number_of_fixed_datum_records: 8, number_of_variable_datum_records: 9, fixed_datum_records: 10, variable_datum_records: 11);
conv_pdu!(odr::simulation_management_with_reliability::ActionResponseReliablePdu, 8; originating_entity_id: 0, receiving_entity_id: 1, request_id: 2, request_status: 3, number_of_fixed_datum_records: 4, number_of_variable_datum_records: 5, fixed_datum_records: 6, variable_datum_records: 7);
conv_pdu!(odr::simulation_management_with_reliability::DataQueryReliablePdu, 11; originating_entity_id: 0, receiving_entity_id: 1, required_reliability_service: 2, request_id: 5, time_interval: 6, number_of_fixed_datum_records: 7, number_of_variable_datum_records: 8, fixed_datum_ids: 9, variable_datum_ids: 10);
conv_pdu!(odr::simulation_management_with_reliability::SetDataReliablePdu, 10; originating_entity_id: 0, receiving_entity_id: 1, required_reliability_service: 2, request_id: 5, number_of_fixed_datum_records: 6, number_of_variable_datum_records: 7, fixed_datum_records: 8, variable_datum_records: 9);
conv_pdu!(odr::simulation_management_with_reliability::DataReliablePdu, 10; originating_entity_id: 0, receiving_entity_id: 1, request_id: 2, required_reliability_service: 3, number_of_fixed_datum_records: 6, number_of_variable_datum_records: 7, fixed_datum_records: 8, variable_datum_records: 9);
conv_pdu!(odr::simulation_management_with_reliability::EventReportReliablePdu, 8; originating_entity_id: 0, receiving_entity_id: 1, event_type: 2, number_of_fixed_datum_records: 4, number_of_variable_datum_records: 5, fixed_datum_records: 6, variable_datum_records: 7);
conv_pdu!(odr::simulation_management_with_reliability::CommentReliablePdu, 6; originating_entity_id: 0, receiving_entity_id: 1, number_of_fixed_datum_records: 2, number_of_variable_datum_records: 3, fixed_datum_records: 4, variable_datum_records: 5);
conv_pdu!(odr::simulation_management_with_reliability::RecordQueryReliablePdu, 9; originating_entity_id: 0, receiving_entity_id: 1, request_id: 2, required_reliability_service: 3, event_type: 5, time: 6, number_of_records: 7, record_ids: 8);
conv_pdu!(odr::simulation_management_with_reliability::SetRecordReliablePdu, 8; originating_entity_id: 0, receiving_entity_id: 1, request_id: 2, required_reliability_service: 3, record_sets: 7);
conv_pdu!(odr::synthetic_environment::EnvironmentalProcessPdu, 7; environmental_process_id: 0, environment_type: 1, model_type: 2, environment_status: 3, number_of_environment_records: 4, sequence_number: 5, environment_records: 6);
conv_pdu!(odr::synthetic_environment::GriddedDataPdu, 16; environmental_simulation_id: 0, field_number: 1, pdu_number: 2, pdu_total: 3, coordinate_system: 4, number_of_grid_axes: 5, constant_grid: 6, environment_type: 7, orientation: 8, sample_time: 9, total_values: 10, vector_dimension: 11, grid_axis_descriptors: 14, grid_data_list: 15);
conv_pdu!(odr::synthetic_environment::PointObjectStatePdu, 14; object_id: 0, referenced_object_id: 1, update_number: 2, force_id: 3, modifications: 4, object_type: 5, object_location: 6, object_orientation: 7, specific_object_appearance: 8, general_object_appearance: 9, requester_id: 11, receiving_id: 12);
conv_pdu!(odr::synthetic_environment::LinearObjectStatePdu, 9; object_id: 0, referenced_object_id: 1, update_number: 2, force_id: 3, number_of_segments: 4, requester_id: 5, receiving_id: 6, object_type: 7, linear_segment_parameters: 8);
conv_pdu!(odr::synthetic_environment::ArealObjectStatePdu, 12; object_id: 0, referenced_object_id: 1, update_number: 2, force_id: 3, modifications: 4, object_type: 5, specific_object_appearance: 6, general_object_appearance: 7, number_of_points: 8, requester_id: 9, receiving_id: 10, object_location: 11);
conv_pdu!(odr::warfare::FirePdu, 9; firing_entity_id: 0, target_entity_id: 1, munition_expendable_id: 2, event_id: 3, fire_mission_index: 4, location_in_world_coordinates: 5, descriptor: 6, velocity: 7, range: 8);
conv_pdu!(odr::warfare::DetonationPdu, 12; firing_entity_id: 0, target_entity_id: 1, exploding_entity_id: 2, event_id: 3, velocity: 4, location_in_world_coordinates: 5, descriptor: 6, location_in_entitys_coordinates: 7, detonation_result: 8, number_of_variable_parameters: 9, variable_parameters: 11);
conv_pdu!(odr::warfare::DirectedEnergyFirePdu, 18; firing_entity_id: 0, event_id: 1, munition_type: 2, shot_start_time: 3, cumulative_shot_time: 4, aperture_emitter_location: 5, aperture_diameter: 6, wavelength: 7, pulse_repetition_frequency: 9, pulse_width: 10, flags: 11, pulse_shape: 12, number_of_de_records: 16, damage_descriptions: 17);
conv_pdu!(odr::warfare::EntityDamageStatusPdu, 5; damaged_entity_id: 0, number_of_damage_descriptions: 3, damage_descriptions: 4);
conv_pdu!(crate::custom::PrimitivesPdu, 12; a: 0, b: 1, c: 2, d: 3, e: 4, f: 5, g: 6, h: 7, i: 8, j: 9, k: 10, l: 11);
conv_pdu!(crate::custom::ListsPdu, 12; n_shorts: 0, n_ints: 1, n_longs: 2, n_doubles: 3, n_bits: 4, shorts: 5, ints: 6, middle: 7, longs: 8, bits: 9, doubles: 10, end: 11);
conv_pdu!(crate::custom::OptionalsPdu, 8; first_length: 0, second_length: 1, first: 2, middle: 3, third_length: 4, second: 5, third: 6, end: 7);
conv_pdu!(crate::custom::RecordsPdu, 15; force: 0, n_ids: 1, n_params: 2, ids: 3, crypto: 4, tdl: 5, marking: 6, n_places: 7, descriptor: 8, params: 9, entity_type: 10, places: 11, event: 12, time: 13, result: 14);
conv_pdu!(crate::custom::SingleBytePdu, 1; only: 0);

pub static ENUMS: &[EnumOps] = &[
    enum_ops!(ProtocolVersion, u8, 1, noio),
    enum_ops!(PduType, u8, 1, noio),
    enum_ops!(ProtocolFamily, u8, 1, noio),
    enum_ops!(ForceId, u8, 1, io),
    enum_ops!(EntityKind, u8, 1, noio),
    enum_ops!(OtherKinds, u8, 1, noio),
    enum_ops!(LandDomainCategories, u8, 1, noio),
    enum_ops!(AirDomainCategories, u8, 1, noio),
    enum_ops!(SurfaceDomainCategories, u8, 1, noio),
    enum_ops!(SubsurfaceDomainCategories, u8, 1, noio),
    enum_ops!(SpaceDomainCategories, u8, 1, noio),
    enum_ops!(MunitionKind, u8, 1, noio),
    enum_ops!(MunitionCategory, u8, 1, noio),
    enum_ops!(USWeaponSubcategories, u8, 1, noio),
    enum_ops!(RussiaWeaponSubcategories, u8, 1, noio),
    enum_ops!(UKWeaponSubcategories, u8, 1, noio),
    enum_ops!(FrenchWeaponSubcategories, u8, 1, noio),
    enum_ops!(LifeFormsSubcategoryGermanWeapons, u8, 1, noio),
    enum_ops!(EnvironmentalSubcategory, u8, 1, noio),
    enum_ops!(RadioCategory, u8, 1, noio),
    enum_ops!(RadioSubcategory, u8, 1, noio),
    enum_ops!(ExpendableAirCategory, u8, 1, noio),
    enum_ops!(ExpendableSurfaceCategory, u8, 1, noio),
    enum_ops!(ExpendableSubsurfaceCategory, u8, 1, noio),
    enum_ops!(SensorEmitterCategory, u8, 1, noio),
    enum_ops!(Country, u16, 2, noio),
    enum_ops!(DeadReckoningAlgorithm, u8, 1, io),
    enum_ops!(EntityMarkingCharacterSet, u8, 1, noio),
    enum_ops!(EntityCapabilities, u32, 4, io),
    enum_ops!(VariableParameterRecordType, u8, 1, noio),
    enum_ops!(AttachedParts, u32, 4, noio),
    enum_ops!(ArticulatedPartsTypeMetric, u8, 1, noio),
    enum_ops!(ArticulatedPartsTypeClass, u32, 4, noio),
    enum_ops!(MunitionDescriptorWarhead, u16, 2, noio),
    enum_ops!(MunitionDescriptorFuse, u16, 2, noio),
    enum_ops!(DetonationResult, u8, 1, io),
    enum_ops!(ServiceRequestServiceTypeRequested, u8, 1, io),
    enum_ops!(RepairCompleteRepair, u16, 2, io),
    enum_ops!(RepairResponseRepairResult, u8, 1, io),
    enum_ops!(VariableRecordTypes, u32, 4, io),
    enum_ops!(Reason, u8, 1, io),
    enum_ops!(AcknowledgeFlag, u16, 2, io),
    enum_ops!(AcknowledgeResponseFlag, u16, 2, io),
    enum_ops!(ActionRequestActionID, u32, 4, noio),
    enum_ops!(ActionResponseRequestStatus, u32, 4, io),
    enum_ops!(EventType, u32, 4, io),
    enum_ops!(RequiredReliabilityService, u8, 1, io),
    enum_ops!(EmitterName, u16, 2, noio),
    enum_ops!(EmitterSystemFunction, u8, 1, noio),
    enum_ops!(ElectromagneticEmissionStateUpdateIndicator, u8, 1, noio),
    enum_ops!(ElectromagneticEmissionBeamFunction, u8, 1, noio),
    enum_ops!(HighDensityTrackJam, u8, 1, noio),
    enum_ops!(DesignatorSystemName, u16, 2, io),
    enum_ops!(DesignatorCode, u16, 2, io),
    enum_ops!(IFFSystemType, u16, 2, noio),
    enum_ops!(IFFSystemName, u16, 2, noio),
    enum_ops!(IFFSystemMode, u8, 1, noio),
    enum_ops!(IFFLayerSpecificInformation, u8, 1, noio),
    enum_ops!(IFFAlternateMode4ChallengeReply, u8, 1, noio),
    enum_ops!(IFFSystemType1OperationalParameter1, u8, 1, noio),
    enum_ops!(IFFSystemType1OperationalParameter2, u8, 1, noio),
    enum_ops!(SubcategoriesforLandCategory200Mammal, u8, 1, noio),
    enum_ops!(SubcategoriesforLandCategory201Reptile, u8, 1, noio),
    enum_ops!(SubcategoriesforLandCategory202Amphibian, u8, 1, noio),
    enum_ops!(SubcategoriesforLandCategory203Insect, u8, 1, noio),
    enum_ops!(SubcategoriesforLandCategory204Arachnid, u8, 1, noio),
    enum_ops!(SubcategoriesforLandCategory205Mollusk, u8, 1, noio),
    enum_ops!(SubcategoriesforLandCategory206Marsupial, u8, 1, noio),
    enum_ops!(SubcategoriesforAirCategory200Bird, u8, 1, noio),
    enum_ops!(SubcategoriesforAirCategory201Insect, u8, 1, noio),
    enum_ops!(SubcategoriesforAirCategory202Mammal, u8, 1, noio),
    enum_ops!(SubcategoriesforSubsurfaceCategory200Fish, u8, 1, noio),
    enum_ops!(SubcategoriesforSubsurfaceCategory201Mammal, u8, 1, noio),
    enum_ops!(SubcategoriesforSubsurfaceCategory202Mollusk, u8, 1, noio),
    enum_ops!(SubcategoriesforSubsurfaceCategory203Crustacean, u8, 1, noio),
    enum_ops!(SubcategoriesforSubsurfaceCategory204Insect, u8, 1, noio),
    enum_ops!(AnimalLifeformGroupSizeRangeEnumerationforallDomains, u8, 1, noio),
    enum_ops!(SpecificDimensionEnumerationsforLandAreaSize, u8, 1, noio),
    enum_ops!(SpecificDimensionEnumerationsforAirAreaSize, u8, 1, noio),
    enum_ops!(AddSpecificDimensionEnumerationsforSubsurfaceAreaSize, u8, 1, noio),
    enum_ops!(AddVariantsforLandCategory200Mammal, u8, 1, noio),
    enum_ops!(VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids, u8, 1, noio),
    enum_ops!(VariantsforAirCategory200Bird, u8, 1, noio),
    enum_ops!(AddVariantsforAirCategory201Insect, u8, 1, noio),
    enum_ops!(AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect, u8, 1, noio),
    enum_ops!(VariantsforSubsurfaceCategory201Mammal, u8, 1, noio),
    enum_ops!(UAStateChangeUpdateIndicator, u8, 1, io),
    enum_ops!(UAAcousticSystemName, u16, 2, io),
    enum_ops!(UAAcousticEmitterSystemFunction, u8, 1, io),
    enum_ops!(UAActiveEmissionParameterIndex, u16, 2, noio),
    enum_ops!(UAScanPattern, u16, 2, noio),
    enum_ops!(UAPassiveParameterIndex, u16, 2, io),
    enum_ops!(UAAdditionalPassiveActivityParameterIndex, u16, 2, noio),
    enum_ops!(TransmitterMajorModulation, u16, 2, noio),
    enum_ops!(TransmitterDetailAmplitudeModulation, u16, 2, noio),
    enum_ops!(TransmitterDetailAmplitudeandAngleModulation, u16, 2, noio),
    enum_ops!(TransmitterDetailAngleModulation, u16, 2, noio),
    enum_ops!(TransmitterDetailCombinationModulation, u16, 2, noio),
    enum_ops!(TransmitterDetailPulseModulation, u16, 2, noio),
    enum_ops!(TransmitterDetailUnmodulatedModulation, u16, 2, noio),
    enum_ops!(TransmitterDetailCarrierPhaseShiftModulation, u16, 2, noio),
    enum_ops!(TransmitterModulationTypeSystem, u16, 2, noio),
    enum_ops!(TransmitterTransmitState, u8, 1, io),
    enum_ops!(TransmitterInputSource, u8, 1, io),
    enum_ops!(TransmitterCryptoSystem, u16, 2, io),
    enum_ops!(TransmitterAntennaPatternType, u16, 2, io),
    enum_ops!(TransmitterAntennaPatternReferenceSystem, u8, 1, io),
    enum_ops!(CCTTSINCGARSStartofMessage, u8, 1, noio),
    enum_ops!(CCTTSINCGARSClearChannel, u8, 1, noio),
    enum_ops!(TimeSlotAllocationLevel, u8, 1, noio),
    enum_ops!(JTIDSMIDSModulationParametersTransmittingTerminalPrimaryMode, u8, 1, noio),
    enum_ops!(JTIDSMIDSModulationParametersTransmittingTerminalSecondaryMode, u8, 1, noio),
    enum_ops!(JTIDSMIDSModulationParametersSynchronizationState, u8, 1, noio),
    enum_ops!(MessageTypeIdentifier, u8, 1, noio),
    enum_ops!(SignalUserProtocolIdentificationNumber, u32, 4, noio),
    enum_ops!(SignalTDLType, u16, 2, io),
    enum_ops!(ReceiverReceiverState, u16, 2, io),
    enum_ops!(IntercomControlControlType, u8, 1, io),
    enum_ops!(IntercomControlCommunicationsType, u8, 1, noio),
    enum_ops!(IntercomControlCommand, u8, 1, io),
    enum_ops!(IntercomControlTransmitLineState, u8, 1, io),
    enum_ops!(IntercomControlDestinationLineStateCommand, u8, 1, noio),
    enum_ops!(IntercomControlRecordType, u16, 2, noio),
    enum_ops!(CollisionType, u8, 1, noio),
    enum_ops!(MinefieldSensorTypes, u8, 1, io),
    enum_ops!(MinefieldSensorTypesOptical, u16, 2, noio),
    enum_ops!(MinefieldSensorTypesFLIR, u16, 2, noio),
    enum_ops!(MinefieldSensorTypesRADAR, u16, 2, noio),
    enum_ops!(MinefieldSensorTypesMagnetic, u16, 2, noio),
    enum_ops!(MinefieldSensorTypesLaser, u16, 2, noio),
    enum_ops!(MinefieldSensorTypesSONAR, u16, 2, noio),
    enum_ops!(MinefieldSensorTypesPhysical, u16, 2, noio),
    enum_ops!(MinefieldSensorTypesMultispectral, u16, 2, noio),
    enum_ops!(AggregateStateAggregateState, u8, 1, io),
    enum_ops!(AggregateStateFormation, u32, 4, io),
    enum_ops!(AggregateStateAggregateKind, u8, 1, noio),
    enum_ops!(AggregateStateSubcategory, u8, 1, noio),
    enum_ops!(AggregateStateSpecific, u8, 1, noio),
    enum_ops!(IsPartOfNature, u16, 2, noio),
    enum_ops!(IsPartOfPosition, u16, 2, noio),
    enum_ops!(IsPartOfStationName, u16, 2, noio),
    enum_ops!(IsGroupOfGroupedEntityCategory, u8, 1, io),
    enum_ops!(IsGroupOfRestStatus, u8, 1, noio),
    enum_ops!(TransferControlTransferType, u8, 1, io),
    enum_ops!(ObjectKind, u8, 1, noio),
    enum_ops!(GriddedDataCoordinateSystem, u16, 2, io),
    enum_ops!(GriddedDataConstantGrid, u8, 1, io),
    enum_ops!(GriddedDataSampleType, u8, 1, io),
    enum_ops!(GriddedDataDataRepresentation, u8, 1, io),
    enum_ops!(EnvironmentalProcessModelType, u8, 1, noio),
    enum_ops!(EnvironmentalProcessRecordType, u32, 4, noio),
    enum_ops!(SignalEncodingClass, u8, 1, noio),
    enum_ops!(SignalEncodingType, u8, 1, noio),
    enum_ops!(RepairGroups, u8, 1, io),
    enum_ops!(EnvironmentRecordTypeGroups, u8, 1, noio),
    enum_ops!(PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories, u8, 1, noio),
    enum_ops!(PlatformAirCivilianUltralightRigidWingAircraftSubcategories, u8, 1, noio),
    enum_ops!(PlatformAirCivilianGliderSubcategories, u8, 1, noio),
    enum_ops!(PlatformAirCivilianFixedWingAircraftSubcategories, u8, 1, noio),
    enum_ops!(PlatformAirCivilianHelicopterSubcategories, u8, 1, noio),
    enum_ops!(PlatformAirCivilianLighterthanAirBalloonSubcategories, u8, 1, noio),
    enum_ops!(PlatformAirCivilianLighterthanAirAirshipSubcategories, u8, 1, noio),
    enum_ops!(APAParameterIndexAPAStatus, u8, 1, noio),
    enum_ops!(SeparationVPReasonforSeparation, u8, 1, noio),
    enum_ops!(SeparationVPPreEntityIndicator, u8, 1, noio),
    enum_ops!(IOActionIOWarfareType, u16, 2, io),
    enum_ops!(IOActionIOSimulationSource, u16, 2, io),
    enum_ops!(IOActionIOActionType, u16, 2, io),
    enum_ops!(IOActionIOActionPhase, u16, 2, io),
    enum_ops!(IOReportIOReportType, u8, 1, io),
    enum_ops!(IOEffectsRecordIOStatus, u8, 1, noio),
    enum_ops!(IOEffectsRecordIOLinkType, u8, 1, noio),
    enum_ops!(IOEffectsRecordIOEffect, u8, 1, noio),
    enum_ops!(IOEffectsRecordIOProcess, u8, 1, noio),
    enum_ops!(IOCommsNodeRecordCommsNodeType, u8, 1, noio),
    enum_ops!(DISAttributeActionCode, u8, 1, io),
    enum_ops!(DRParametersType, u8, 1, noio),
    enum_ops!(HighFidelityHAVEQUICKTODTransmitIndicator, u8, 1, noio),
    enum_ops!(NETIDRecordMode, u8, 1, noio),
    enum_ops!(NETIDRecordFrequencyTable, u8, 1, noio),
    enum_ops!(EEAttributeStateIndicator, u8, 1, io),
    enum_ops!(TransferredEntityIndicator, u8, 1, noio),
    enum_ops!(LVCIndicator, u8, 1, noio),
    enum_ops!(CoupledExtensionIndicator, u8, 1, noio),
    enum_ops!(FireTypeIndicator, u8, 1, noio),
    enum_ops!(DetonationTypeIndicator, u8, 1, noio),
    enum_ops!(RadioAttachedIndicator, u8, 1, noio),
    enum_ops!(IntercomAttachedIndicator, u8, 1, noio),
    enum_ops!(PduStatusIFFSimulationMode, u8, 1, noio),
    enum_ops!(ExplosiveMaterialGroups, u8, 1, noio),
    enum_ops!(ExplosiveMaterialCategories, u16, 2, noio),
    enum_ops!(DEPrecisionAimpointBeamSpotType, u8, 1, noio),
    enum_ops!(DEFirePulseShape, u8, 1, io),
    enum_ops!(ComponentIdentification, u8, 1, io),
    enum_ops!(ComponentDamageStatus, u8, 1, io),
    enum_ops!(ComponentVisualSmokeColor, u8, 1, io),
    enum_ops!(BeamStatusBeamState, u8, 1, noio),
    enum_ops!(EntityAssociationAssociationStatus, u8, 1, noio),
    enum_ops!(EntityVPRecordChangeIndicator, u8, 1, noio),
    enum_ops!(EntityAssociationGroupMemberType, u8, 1, noio),
    enum_ops!(PhysicalAssociationTypeGroups, u8, 1, noio),
    enum_ops!(EntityAssociationPhysicalAssociationType, u8, 1, noio),
    enum_ops!(EntityAssociationPhysicalConnectionType, u8, 1, noio),
    enum_ops!(SensorRecordSensorTypeOtherActiveSensors, u8, 1, noio),
    enum_ops!(SensorRecordSensorTypePassiveSensors, u16, 2, noio),
    enum_ops!(MunitionExpendableStatus, u8, 1, noio),
    enum_ops!(FuelMeasurementUnits, u8, 1, noio),
    enum_ops!(FuelLocation, u8, 1, noio),
    enum_ops!(EntityAssociationAssociationType, u8, 1, noio),
    enum_ops!(SensorOnOffStatus, u8, 1, noio),
    enum_ops!(OwnershipStatus, u8, 1, noio),
    enum_ops!(RecordREventType, u8, 1, noio),
    enum_ops!(RecordQueryREventType, u16, 2, io),
    enum_ops!(UAPropulsionPlantConfigurationConfiguration, u8, 1, noio),
    enum_ops!(MinefieldStateProtocolMode, u16, 2, io),
    enum_ops!(TransponderInterrogatorIndicator, u8, 1, noio),
    enum_ops!(IFFSimulationMode, u8, 1, noio),
    enum_ops!(IFFApplicableModes, u8, 1, noio),
    enum_ops!(ModeCAltitudeIndicator, u8, 1, noio),
    enum_ops!(TCASACASBasicAdvancedIndicator, u8, 1, noio),
    enum_ops!(TCASACASIndicator, u8, 1, noio),
    enum_ops!(TCASACASSoftwareVersion, u8, 1, noio),
    enum_ops!(TCASACASType, u8, 1, noio),
    enum_ops!(TCASIIIType, u8, 1, noio),
    enum_ops!(Mode5IFFMission, u8, 1, noio),
    enum_ops!(ModeSInterrogatorStatusTransmitState, u8, 1, noio),
    enum_ops!(ModeSInterrogatorIdentifierICType, u8, 1, noio),
    enum_ops!(ISLSAntennaType, u8, 1, noio),
    enum_ops!(Mode5Reply, u8, 1, noio),
    enum_ops!(AntennaSelection, u8, 1, noio),
    enum_ops!(Mode5SquitterType, u8, 1, noio),
    enum_ops!(Level2SquitterStatus, u8, 1, noio),
    enum_ops!(ModeSSquitterType, u8, 1, noio),
    enum_ops!(ModeSSquitterRecordSource, u8, 1, noio),
    enum_ops!(AircraftPresentDomain, u8, 1, noio),
    enum_ops!(AircraftIdentificationType, u8, 1, noio),
    enum_ops!(CapabilityReport, u8, 1, noio),
    enum_ops!(NavigationSource, u8, 1, noio),
    enum_ops!(IFFDataRecordAvailable, u8, 1, noio),
    enum_ops!(Mode5SAltitudeResolution, u8, 1, noio),
    enum_ops!(DeltaMode5SAltitudePositiveNegativeIndicator, u8, 1, noio),
    enum_ops!(FormatType, u8, 1, noio),
    enum_ops!(AircraftAddressSource, u8, 1, noio),
    enum_ops!(SurveillanceStatus, u8, 1, noio),
    enum_ops!(TurnRateSource, u8, 1, noio),
    enum_ops!(TimeTypeSource, u8, 1, noio),
    enum_ops!(AircraftTypeWake, u8, 1, noio),
    enum_ops!(DataCategory, u8, 1, noio),
    enum_ops!(TILinkType, u8, 1, noio),
    enum_ops!(AntennaStatus, u8, 1, noio),
    enum_ops!(TransmissionIndicator, u8, 1, noio),
    enum_ops!(ReplyAmplification, u8, 1, noio),
    enum_ops!(DEFireFlagsStateUpdateFlag, u8, 1, noio),
    enum_ops!(ComponentVisualDamageStatusSmoke, u8, 1, noio),
    enum_ops!(ComponentVisualDamageStatusSurfaceDamage, u8, 1, noio),
    enum_ops!(GridAxisDescriptorAxisType, u8, 1, io),
    enum_ops!(AppearancePaintScheme, u8, 1, noio),
    enum_ops!(AppearanceDamage, u8, 1, noio),
    enum_ops!(Mode5MessageFormatsStatus, u8, 1, noio),
    enum_ops!(AppearanceTrailingEffects, u8, 1, noio),
    enum_ops!(AppearanceHatch, u8, 1, noio),
    enum_ops!(AppearanceLauncherOperational, u8, 1, noio),
    enum_ops!(AppearanceCamouflageType, u8, 1, noio),
    enum_ops!(AppearanceConcealedPosition, u8, 1, noio),
    enum_ops!(AppearanceEntityorObjectState, u8, 1, noio),
    enum_ops!(AppearanceCanopy, u8, 1, noio),
    enum_ops!(AppearanceSubsurfaceHatch, u8, 1, noio),
    enum_ops!(ActiveInterrogationIndicator, u8, 1, noio),
    enum_ops!(AppearanceLifeformHealth, u8, 1, noio),
    enum_ops!(AppearanceLifeFormComplianceStatus, u8, 1, noio),
    enum_ops!(AppearanceLifeFormPosture, u8, 1, noio),
    enum_ops!(AppearanceLifeFormWeaponImplement, u8, 1, noio),
    enum_ops!(AppearanceConcealedMovement, u8, 1, noio),
    enum_ops!(AppearanceEnvironmentalDensity, u8, 1, noio),
    enum_ops!(Mode5PlatformType, u8, 1, noio),
    enum_ops!(AppearanceAntiCollisionDayNight, u8, 1, noio),
    enum_ops!(AppearanceNavigationPositionBrightness, u8, 1, noio),
    enum_ops!(AppearanceSupplyDeployed, u8, 1, noio),
    enum_ops!(AppearanceNVGMode, u8, 1, noio),
    enum_ops!(Parachute, u8, 1, noio),
    enum_ops!(FlareSmokeColor, u8, 1, noio),
    enum_ops!(FlareSmokeStatus, u8, 1, noio),
    enum_ops!(SpotChaffStatus, u8, 1, noio),
    enum_ops!(AppearanceObjectGeneralDamage, u8, 1, noio),
    enum_ops!(AppearanceObjectGeneralPredistributed, u8, 1, noio),
    enum_ops!(AppearanceObjectSpecificBreachState, u8, 1, noio),
    enum_ops!(AppearanceObjectSpecificChemicalType, u8, 1, noio),
    enum_ops!(AppearanceLinearObjectTankDitchBreach, u8, 1, noio),
    enum_ops!(AppearanceLinearObjectLaneMarkerVisible, u8, 1, noio),
    enum_ops!(AppearanceObjectGeneralIEDPresent, u8, 1, noio),
    enum_ops!(Mode5LevelSelection, u8, 1, noio),
    enum_ops!(SupplyFuelType, u8, 1, noio),
    enum_ops!(SensorTypeSource, u8, 1, noio),
    enum_ops!(AttachedPartDetachedIndicator, u8, 1, noio),
    enum_ops!(IntercomControlCommunicationsClass, u8, 1, noio),
    enum_ops!(DISLiveEntitySubprotocolNumber, u8, 1, noio),
    enum_ops!(MinefieldAppearanceMinefieldType, u8, 1, noio),
    enum_ops!(MinefieldAppearanceActiveStatus, u8, 1, noio),
    enum_ops!(MinefieldAppearanceLane, u8, 1, noio),
    enum_ops!(MinefieldAppearanceState, u8, 1, noio),
    enum_ops!(MinefieldFusingFuseType, u8, 1, noio),
    enum_ops!(Mode5LocationErrors, u8, 1, noio),
    enum_ops!(MinefieldPaintSchemeAlgae, u8, 1, noio),
    enum_ops!(MinefieldPaintSchemePaintScheme, u8, 1, noio),
    enum_ops!(CoverShroudStatus, u8, 1, noio),
    enum_ops!(PlatformLandMotorcycleSubcategories, u8, 1, noio),
    enum_ops!(PlatformLandCarSubcategories, u8, 1, noio),
    enum_ops!(PlatformLandBusSubcategories, u8, 1, noio),
    enum_ops!(PlatformLandSingleUnitCargoTruckSubcategories, u8, 1, noio),
    enum_ops!(PlatformLandSingleUnitUtilityEmergencyTruckSubcategories, u8, 1, noio),
    enum_ops!(PlatformLandMultipleUnitCargoTruckSubcategories, u8, 1, noio),
    enum_ops!(PlatformLandMultipleUnitUtilityEmergencyTruckSubcategories, u8, 1, noio),
    enum_ops!(PlatformLandConstructionSpecialtyVehicleSubcategories, u8, 1, noio),
    enum_ops!(PlatformLandFarmSpecialtyVehicleSubcategories, u8, 1, noio),
    enum_ops!(PlatformLandTrailerSubcategories, u8, 1, noio),
    enum_ops!(PlatformLandRecreationalSubcategories, u8, 1, noio),
    enum_ops!(PlatformLandNonmotorizedSubcategories, u8, 1, noio),
    enum_ops!(PlatformLandTrainsSubcategories, u8, 1, noio),
    enum_ops!(PlatformLandUtilityEmergencyCarSubcategories, u8, 1, noio),
    enum_ops!(PlatformSurfacePassengerVesselSubcategories, u8, 1, noio),
    enum_ops!(PlatformSurfaceDryCargoShipSubcategories, u8, 1, noio),
    enum_ops!(PlatformSurfaceTankerSubcategories, u8, 1, noio),
    enum_ops!(PlatformSurfaceSupportVesselSubcategories, u8, 1, noio),
    enum_ops!(PlatformSurfacePrivateMotorboatSubcategories, u8, 1, noio),
    enum_ops!(PlatformSurfacePrivateSailboatSubcategories, u8, 1, noio),
    enum_ops!(PlatformSurfaceFishingVesselSubcategories, u8, 1, noio),
    enum_ops!(PlatformSurfaceOtherVesselsSubcategories, u8, 1, noio),
    enum_ops!(CryptoKeyIDCryptoMode, u8, 1, noio),
    enum_ops!(Color, u8, 1, noio),
    enum_ops!(BuildingPaintScheme, u8, 1, noio),
    enum_ops!(Season, u8, 1, noio),
    enum_ops!(Material, u8, 1, noio),
    enum_ops!(Link11_11BFidelityLevel, u8, 1, noio),
    enum_ops!(Link11TerminalMode, u8, 1, noio),
    enum_ops!(Link11DataTerminalSetIndicator, u8, 1, noio),
    enum_ops!(Link11ModeofOperation, u16, 2, noio),
    enum_ops!(LifeFormsSubcategoryIranianWeapons, u8, 1, noio),
    enum_ops!(LifeFormLandCategories, u8, 1, noio),
    enum_ops!(LifeFormHumanSubcategoryEquipmentClass, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificAssaultRifles, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificHighPowerRifles, u8, 1, noio),
    enum_ops!(LifeFormCategoriesUS, u8, 1, noio),
    enum_ops!(LifeFormExtraPersonalData, u8, 1, noio),
    enum_ops!(LifeFormAirCategories, u8, 1, noio),
    enum_ops!(LifeFormSubsurfaceCategories, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificSniper, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificSubMachineGun, u8, 1, noio),
    enum_ops!(AustralianCategoryOverlay, u8, 1, noio),
    enum_ops!(LifeFormCategoriesAfghanistan, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificEquipmentClass, u8, 1, noio),
    enum_ops!(PlatformSubsurfaceCivilianSemiSubmersiblesSubcategories, u8, 1, noio),
    enum_ops!(LeafCoverage, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificAntiMaterielRifles, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificShotGuns, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificMortars, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificHandGuns, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificWeaponNonspecific, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificGrenadeLaunchers, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificMachineGuns, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificGrenadeLaunchingMachineGun, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificAntiTankRockets, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificAntiTankMissiles, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificManPortableAirDefenseSystem, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificRecoillessRifles, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificFlameRockets, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificFlameThrowers, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificDroneGuns, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificLogisticsEQClass, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificPersonalElectronicsClass, u8, 1, noio),
    enum_ops!(LifeFormHumanSpecificLasersClass, u8, 1, noio),
    enum_ops!(TransmitterDetailSATCOMModulation, u16, 2, noio),
    enum_ops!(SupplyDomain, u8, 1, noio),
    enum_ops!(Class1SupplyCategorySubsistence, u8, 1, noio),
    enum_ops!(Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies, u8, 1, noio),
    enum_ops!(Class3SupplyCategoryPetroleumOilsLubricants, u8, 1, noio),
    enum_ops!(Class4SupplyCategoryConstructionMaterials, u8, 1, noio),
    enum_ops!(Class6SupplyCategoryPersonnelDemandItems, u8, 1, noio),
    enum_ops!(Class7SupplyCategoryMajorItems, u8, 1, noio),
    enum_ops!(Class8SupplyCategoryMedicalMaterial, u8, 1, noio),
    enum_ops!(Class9SupplyCategoryRepairPartsandComponents, u8, 1, noio),
    enum_ops!(Class10SupplyCategoryMaterialToSupportNonMilitaryPrograms, u8, 1, noio),
    enum_ops!(Class11SupplyCategorySupplies, u8, 1, noio),
    enum_ops!(Class12SupplyCategorySlingLoads, u8, 1, noio),
    enum_ops!(LifeSavingEquipment, u8, 1, noio),
    enum_ops!(IslandSubcategory, u16, 2, noio),
    enum_ops!(Link11MessageSubType, u8, 1, noio),
    enum_ops!(Link11MessageTypeIdentifier, u8, 1, noio),
    enum_ops!(Link11DataSignallingRate, u8, 1, noio),
    enum_ops!(Link11SignalIntegrationInterval, u8, 1, noio),
    enum_ops!(Link11SignalWaveform, u8, 1, noio),
    enum_ops!(Link11_11BEncryptionFlag, u8, 1, noio),
    enum_ops!(SISOSTD002Version, u8, 1, noio),
    enum_ops!(Link11BLinkState, u8, 1, noio),
    enum_ops!(Link11BModeofOperation, u16, 2, noio),
    enum_ops!(Link11BMessageSubType, u8, 1, noio),
    enum_ops!(Link11BDataSignalingRate, u8, 1, noio),
    enum_ops!(Link11BModulationStandard, u8, 1, noio),
    enum_ops!(CIGIExtensionPacketID, u16, 2, noio),
    enum_ops!(Link16Version, u8, 1, noio),
    enum_ops!(AircraftIDSource, u8, 1, noio),
    enum_ops!(ClothingIRSignature, u8, 1, noio),
    enum_ops!(DamageArea, u8, 1, noio),
];
pub static RECS: &[RecOps] = &[
    rec_ops!(odr::common::data_types::acoustic_beam_data::AcousticBeamData, "AcousticBeamData", noio, nolen),
    rec_ops!(odr::common::data_types::acoustic_beam_fundamental_parameter::AcousticBeamFundamentalParameter, "AcousticBeamFundamentalParameter", noio, nolen),
    rec_ops!(odr::common::data_types::acoustic_emitter_system::AcousticEmitterSystem, "AcousticEmitterSystem", io, nolen),
    rec_ops!(odr::common::data_types::acoustic_emitter_system_data::AcousticEmitterSystemData, "AcousticEmitterSystemData", noio, nolen),
    rec_ops!(odr::common::data_types::aggregate_id::AggregateId, "AggregateId", io, nolen),
    rec_ops!(odr::common::data_types::aggregate_marking::AggregateMarking, "AggregateMarking", io, nolen),
    rec_ops!(odr::common::data_types::angular_velocity_vector::AngularVelocity, "AngularVelocity", noio, len),
    rec_ops!(odr::common::data_types::apa_data::ApaData, "ApaData", io, len),
    rec_ops!(odr::common::data_types::attribute_record::AttributeRecord, "AttributeRecord", io, nolen),
    rec_ops!(odr::common::data_types::attribute_record_set::AttributeRecordSet, "AttributeRecordSet", io, nolen),
    rec_ops!(odr::common::data_types::beam_data::BeamData, "BeamData", io, len),
    rec_ops!(odr::common::data_types::clock_time::ClockTime, "ClockTime", io, nolen),
    rec_ops!(odr::common::data_types::datum_records::FixedDatumRecord, "FixedDatumRecord", io, nolen),
    rec_ops!(odr::common::data_types::datum_records::VariableDatumRecord, "VariableDatumRecord", io, nolen),
    rec_ops!(odr::common::data_types::dead_reckoning_parameters::DeadReckoningParameters, "DeadReckoningParameters", io, len),
    rec_ops!(odr::common::data_types::directed_energy_damage::DirectedEnergyDamage, "DirectedEnergyDamage", io, nolen),
    rec_ops!(odr::common::data_types::electromagnetic_emission_beam_data::ElectromagneticEmissionBeamData, "ElectromagneticEmissionBeamData", io, nolen),
    rec_ops!(odr::common::data_types::electromagnetic_emission_system_data::ElectromagneticEmissionSystemData, "ElectromagneticEmissionSystemData", io, nolen),
    rec_ops!(odr::common::data_types::emitter_system::EmitterSystem, "EmitterSystem", noio, len),
    rec_ops!(odr::common::data_types::entity_coordinate_vector::EntityCoordinateVector, "EntityCoordinateVector", io, len),
    rec_ops!(odr::common::data_types::entity_id::EntityId, "EntityId", io, len),
    rec_ops!(odr::common::data_types::entity_marking::EntityMarking, "EntityMarking", io, len),
    rec_ops!(odr::common::data_types::entity_type::EntityType, "EntityType", io, len),
    rec_ops!(odr::common::data_types::environment::Environment, "Environment", io, nolen),
    rec_ops!(odr::common::data_types::euler_angles::EulerAngles, "EulerAngles", io, len),
    rec_ops!(odr::common::data_types::event_id::EventId, "EventId", io, len),
    rec_ops!(odr::common::data_types::fundamental_operational_data::FundamentalOperationalData, "FundamentalOperationalData", io, len),
    rec_ops!(odr::common::data_types::fundamental_parameter_data::FundamentalParameterData, "FundamentalParameterData", io, nolen),
    rec_ops!(odr::common::data_types::grid_axis_descriptor::GridAxisDescriptor, "GridAxisDescriptor", io, nolen),
    rec_ops!(odr::common::data_types::grid_data_record::GridDataRecord, "GridDataRecord", io, nolen),
    rec_ops!(odr::common::data_types::iff_fundamental_parameter_data::IFFFundamentalParameterData, "IFFFundamentalParameterData", io, len),
    rec_ops!(odr::common::data_types::intercom_communications_parameters::IntercomCommunicationsParameters, "IntercomCommunicationsParameters", io, nolen),
    rec_ops!(odr::common::data_types::layer_header::LayerHeader, "LayerHeader", io, len),
    rec_ops!(odr::common::data_types::linear_acceleration::LinearAcceleration, "LinearAcceleration", io, len),
    rec_ops!(odr::common::data_types::linear_segment_parameter::LinearSegmentParameter, "LinearSegmentParameter", io, nolen),
    rec_ops!(odr::common::data_types::linear_velocity::LinearVelocity, "LinearVelocity", io, len),
    rec_ops!(odr::common::data_types::minefield_identifier::MinefieldIdentifier, "MinefieldIdentifier", io, nolen),
    rec_ops!(odr::common::data_types::modulation_type::ModulationType, "ModulationType", io, nolen),
    rec_ops!(odr::common::data_types::munition_descriptor::MunitionDescriptor, "MunitionDescriptor", io, nolen),
    rec_ops!(odr::common::data_types::named_location::NamedLocation, "NamedLocation", io, nolen),
    rec_ops!(odr::common::data_types::object_identifier::ObjectIdentifier, "ObjectIdentifier", io, nolen),
    rec_ops!(odr::common::data_types::object_type::ObjectType, "ObjectType", io, nolen),
    rec_ops!(odr::common::data_types::point::Point, "Point", io, nolen),
    rec_ops!(odr::common::data_types::propulsion_system_data::PropulsionSystemData, "PropulsionSystemData", io, len),
    rec_ops!(odr::common::data_types::radio_entity_type::RadioEntityType, "RadioEntityType", io, nolen),
    rec_ops!(odr::common::data_types::record_specification::RecordSpecification, "RecordSpecification", io, nolen),
    rec_ops!(odr::common::data_types::record_specification_element::RecordSpecificationElement, "RecordSpecificationElement", io, nolen),
    rec_ops!(odr::common::data_types::relationship::Relationship, "Relationship", io, nolen),
    rec_ops!(odr::common::data_types::secondary_operational_data::SecondaryOperationalData, "SecondaryOperationalData", io, len),
    rec_ops!(odr::common::data_types::shaft_rpms::ShaftRPMs, "ShaftRPMs", io, len),
    rec_ops!(odr::common::data_types::simulation_address::SimulationAddress, "SimulationAddress", io, len),
    rec_ops!(odr::common::data_types::simulation_id::SimulationIdentifier, "SimulationIdentifier", io, len),
    rec_ops!(odr::common::data_types::standard_variable_records::StandardVariableRecords, "StandardVariableRecords", io, nolen),
    rec_ops!(odr::common::data_types::standard_variable_specification::StandardVariableSpecification, "StandardVariableSpecification", io, nolen),
    rec_ops!(odr::common::data_types::supply_quantity::SupplyQuantity, "SupplyQuantity", io, nolen),
    rec_ops!(odr::common::data_types::system_id::SystemId, "SystemId", io, len),
    rec_ops!(odr::common::data_types::track_jam_target::TrackJamTarget, "TrackJamTarget", io, nolen),
    rec_ops!(odr::common::data_types::variable_parameter::VariableParameter, "VariableParameter", io, len),
    rec_ops!(odr::common::data_types::variable_transmitter_parameters::VariableTransmitterParameters, "VariableTransmitterParameters", io, nolen),
    rec_ops!(odr::common::data_types::vector3_double::Vector3Double, "Vector3Double", noio, len),
    rec_ops!(odr::common::data_types::vector3_float::Vector3Float, "Vector3Float", io, nolen),
    rec_ops!(odr::common::data_types::vectoring_nozzle_system_data::VectoringNozzleSystemData, "VectoringNozzleSystemData", io, len),
    rec_ops!(odr::common::data_types::velocity_vector::VelocityVector, "VelocityVector", noio, nolen),
    rec_ops!(odr::common::data_types::world_coordinate::WorldCoordinate, "WorldCoordinate", io, len),
];
pub static PDUS: &[PduInfo] = &[
    pdu_info!(odr::distributed_emissions::ElectromagneticEmissionsPdu, "ElectromagneticEmissionsPdu"),
    pdu_info!(odr::distributed_emissions::DesignatorPdu, "DesignatorPdu"),
    pdu_info!(odr::distributed_emissions::UnderwaterAcousticPdu, "UnderwaterAcousticPdu"),
    pdu_info!(odr::distributed_emissions::IFFPdu, "IFFPdu"),
    pdu_info!(odr::distributed_emissions::SupplementalEmissionPdu, "SupplementalEmissionPdu"),
    pdu_info!(odr::entity_information::EntityStatePdu, "EntityStatePdu"),
    pdu_info!(odr::entity_information::CollisionPdu, "CollisionPdu"),
    pdu_info!(odr::entity_information::CollisionElasticPdu, "CollisionElasticPdu"),
    pdu_info!(odr::entity_information::EntityStateUpdatePdu, "EntityStateUpdatePdu"),
    pdu_info!(odr::entity_information::AttributePdu, "AttributePdu"),
    pdu_info!(odr::entity_management::AggregateStatePdu, "AggregateStatePdu"),
    pdu_info!(odr::entity_management::IsGroupOfPdu, "IsGroupOfPdu"),
    pdu_info!(odr::entity_management::TransferOwnershipPdu, "TransferOwnershipPdu"),
    pdu_info!(odr::entity_management::IsPartOfPdu, "IsPartOfPdu"),
    pdu_info!(odr::information_operations::InformationOperationsReportPdu, "InformationOperationsReportPdu"),
    pdu_info!(odr::information_operations::InformationOperationsActionPdu, "InformationOperationsActionPdu"),
    pdu_info!(odr::logistics::ServiceRequestPdu, "ServiceRequestPdu"),
    pdu_info!(odr::logistics::ResupplyOfferPdu, "ResupplyOfferPdu"),
    pdu_info!(odr::logistics::ResupplyReceivedPdu, "ResupplyReceivedPdu"),
    pdu_info!(odr::logistics::ResupplyCancelPdu, "ResupplyCancelPdu"),
    pdu_info!(odr::logistics::RepairCompletePdu, "RepairCompletePdu"),
    pdu_info!(odr::logistics::RepairResponsePdu, "RepairResponsePdu"),
    pdu_info!(odr::minefield::MinefieldStatePdu, "MinefieldStatePdu"),
    pdu_info!(odr::minefield::MinefieldQueryPdu, "MinefieldQueryPdu"),
    pdu_info!(odr::minefield::MinefieldDataPdu, "MinefieldDataPdu"),
    pdu_info!(odr::minefield::MinefieldResponseNackPdu, "MinefieldResponseNackPdu"),
    pdu_info!(odr::radio_communications::TransmitterPdu, "TransmitterPdu"),
    pdu_info!(odr::radio_communications::SignalPdu, "SignalPdu"),
    pdu_info!(odr::radio_communications::ReceiverPdu, "ReceiverPdu"),
    pdu_info!(odr::radio_communications::IntercomSignalPdu, "IntercomSignalPdu"),
    pdu_info!(odr::radio_communications::IntercomControlPdu, "IntercomControlPdu"),
    pdu_info!(odr::simulation_management::CreateEntityPdu, "CreateEntityPdu"),
    pdu_info!(odr::simulation_management::RemoveEntityPdu, "RemoveEntityPdu"),
    pdu_info!(odr::simulation_management::StartResumePdu, "StartResumePdu"),
    pdu_info!(odr::simulation_management::StopFreezePdu, "StopFreezePdu"),
    pdu_info!(odr::simulation_management::AcknowledgePdu, "AcknowledgePdu"),
    pdu_info!(odr::simulation_management::ActionRequestPdu, "ActionRequestPdu"),
    pdu_info!(odr::simulation_management::ActionResponsePdu, "ActionResponsePdu"),
    pdu_info!(odr::simulation_management::DataQueryPdu, "DataQueryPdu"),
    pdu_info!(odr::simulation_management::SetDataPdu, "SetDataPdu"),
    pdu_info!(odr::simulation_management::DataPdu, "DataPdu"),
    pdu_info!(odr::simulation_management::EventReportPdu, "EventReportPdu"),
    pdu_info!(odr::simulation_management::CommentPdu, "CommentPdu"),
    pdu_info!(odr::simulation_management_with_reliability::CreateEntityReliablePdu, "CreateEntityReliablePdu"),
    pdu_info!(odr::simulation_management_with_reliability::RemoveEntityReliablePdu, "RemoveEntityReliablePdu"),
    pdu_info!(odr::simulation_management_with_reliability::StartResumeReliablePdu, "StartResumeReliablePdu"),
    pdu_info!(odr::simulation_management_with_reliability::StopFreezeReliablePdu, "StopFreezeReliablePdu"),
    pdu_info!(odr::simulation_management_with_reliability::AcknowledgeReliablePdu, "AcknowledgeReliablePdu"),
    pdu_info!(odr::simulation_management_with_reliability::ActionRequestReliablePdu, "ActionRequestReliablePdu"),
    pdu_info!(odr::simulation_management_with_reliability::ActionResponseReliablePdu, "ActionResponseReliablePdu"),
    pdu_info!(odr::simulation_management_with_reliability::DataQueryReliablePdu, "DataQueryReliablePdu"),
    pdu_info!(odr::simulation_management_with_reliability::SetDataReliablePdu, "SetDataReliablePdu"),
    pdu_info!(odr::simulation_management_with_reliability::DataReliablePdu, "DataReliablePdu"),
    pdu_info!(odr::simulation_management_with_reliability::EventReportReliablePdu, "EventReportReliablePdu"),
    pdu_info!(odr::simulation_management_with_reliability::CommentReliablePdu, "CommentReliablePdu"),
    pdu_info!(odr::simulation_management_with_reliability::RecordQueryReliablePdu, "RecordQueryReliablePdu"),
    pdu_info!(odr::simulation_management_with_reliability::SetRecordReliablePdu, "SetRecordReliablePdu"),
    pdu_info!(odr::synthetic_environment::EnvironmentalProcessPdu, "EnvironmentalProcessPdu"),
    pdu_info!(odr::synthetic_environment::GriddedDataPdu, "GriddedDataPdu"),
    pdu_info!(odr::synthetic_environment::PointObjectStatePdu, "PointObjectStatePdu"),
    pdu_info!(odr::synthetic_environment::LinearObjectStatePdu, "LinearObjectStatePdu"),
    pdu_info!(odr::synthetic_environment::ArealObjectStatePdu, "ArealObjectStatePdu"),
    pdu_info!(odr::warfare::FirePdu, "FirePdu"),
    pdu_info!(odr::warfare::DetonationPdu, "DetonationPdu"),
    pdu_info!(odr::warfare::DirectedEnergyFirePdu, "DirectedEnergyFirePdu"),
    pdu_info!(odr::warfare::EntityDamageStatusPdu, "EntityDamageStatusPdu"),
    pdu_info!(crate::custom::PrimitivesPdu, "PrimitivesPdu"),
    pdu_info!(crate::custom::ListsPdu, "ListsPdu"),
    pdu_info!(crate::custom::OptionalsPdu, "OptionalsPdu"),
    pdu_info!(crate::custom::RecordsPdu, "RecordsPdu"),
    pdu_info!(crate::custom::SingleBytePdu, "SingleBytePdu"),
];
pub static CTORS: &[CtorOps] = &[
    ctor_ops!(odr::common::data_types::acoustic_beam_data::AcousticBeamData, "AcousticBeamData", Some(&[&[0], &[1], &[2], &[3]]); a, <odr::common::data_types::acoustic_beam_data::AcousticBeamData>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]), Conv::from_v(&a[3]))),
    ctor_ops!(odr::common::data_types::acoustic_beam_fundamental_parameter::AcousticBeamFundamentalParameter, "AcousticBeamFundamentalParameter", Some(&[&[0], &[1], &[2], &[3], &[4], &[5]]); a, <odr::common::data_types::acoustic_beam_fundamental_parameter::AcousticBeamFundamentalParameter>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]), Conv::from_v(&a[3]), Conv::from_v(&a[4]), Conv::from_v(&a[5]))),
    ctor_ops!(odr::common::data_types::acoustic_emitter_system::AcousticEmitterSystem, "AcousticEmitterSystem", Some(&[&[0], &[1], &[2]]); a, <odr::common::data_types::acoustic_emitter_system::AcousticEmitterSystem>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::acoustic_emitter_system_data::AcousticEmitterSystemData, "AcousticEmitterSystemData", Some(&[&[0], &[1], &[2], &[3], &[4], &[5]]); a, <odr::common::data_types::acoustic_emitter_system_data::AcousticEmitterSystemData>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]), Conv::from_v(&a[3]), Conv::from_v(&a[4]), Conv::from_v(&a[5]))),
    ctor_ops!(odr::common::data_types::aggregate_id::AggregateId, "AggregateId", Some(&[&[0], &[1], &[2]]); a, <odr::common::data_types::aggregate_id::AggregateId>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::aggregate_marking::AggregateMarking, "AggregateMarking", Some(&[&[0], &[1]]); a, <odr::common::data_types::aggregate_marking::AggregateMarking>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]))),
    ctor_ops!(odr::common::data_types::angular_velocity_vector::AngularVelocity, "AngularVelocity", Some(&[]); _a, <odr::common::data_types::angular_velocity_vector::AngularVelocity>::new()),
    ctor_ops!(odr::common::data_types::apa_data::ApaData, "ApaData", Some(&[&[0], &[1]]); a, <odr::common::data_types::apa_data::ApaData>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]))),
    ctor_ops!(odr::common::data_types::attribute_record::AttributeRecord, "AttributeRecord", Some(&[]); _a, <odr::common::data_types::attribute_record::AttributeRecord>::new()),
    ctor_ops!(odr::common::data_types::attribute_record_set::AttributeRecordSet, "AttributeRecordSet", Some(&[]); _a, <odr::common::data_types::attribute_record_set::AttributeRecordSet>::new()),
    ctor_ops!(odr::common::data_types::beam_data::BeamData, "BeamData", Some(&[&[0], &[1], &[2], &[3], &[4]]); a, <odr::common::data_types::beam_data::BeamData>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]), Conv::from_v(&a[3]), Conv::from_v(&a[4]))),
    ctor_ops!(odr::common::data_types::clock_time::ClockTime, "ClockTime", Some(&[&[0], &[1]]); a, <odr::common::data_types::clock_time::ClockTime>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]))),
    ctor_ops!(odr::common::data_types::dead_reckoning_parameters::DeadReckoningParameters, "DeadReckoningParameters", Some(&[&[0], &[2], &[3]]); a, <odr::common::data_types::dead_reckoning_parameters::DeadReckoningParameters>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::directed_energy_damage::DirectedEnergyDamage, "DirectedEnergyDamage", Some(&[&[0], &[1], &[3], &[4], &[5], &[6], &[7], &[8], &[9], &[10]]); a, <odr::common::data_types::directed_energy_damage::DirectedEnergyDamage>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]), Conv::from_v(&a[3]), Conv::from_v(&a[4]), Conv::from_v(&a[5]), Conv::from_v(&a[6]), Conv::from_v(&a[7]), Conv::from_v(&a[8]), Conv::from_v(&a[9]))),
    ctor_ops!(odr::common::data_types::emitter_system::EmitterSystem, "EmitterSystem", Some(&[&[0], &[1], &[2]]); a, <odr::common::data_types::emitter_system::EmitterSystem>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::entity_coordinate_vector::EntityCoordinateVector, "EntityCoordinateVector", Some(&[&[0], &[1], &[2]]); a, <odr::common::data_types::entity_coordinate_vector::EntityCoordinateVector>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::entity_id::EntityId, "EntityId", Some(&[&[0, 0], &[0, 1], &[1]]); a, <odr::common::data_types::entity_id::EntityId>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::entity_marking::EntityMarking, "EntityMarking", Some(&[&[0], &[1]]); a, <odr::common::data_types::entity_marking::EntityMarking>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]))),
    ctor_ops!(odr::common::data_types::entity_type::EntityType, "EntityType", Some(&[&[0], &[1], &[2], &[3], &[4], &[5], &[6]]); a, <odr::common::data_types::entity_type::EntityType>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]), Conv::from_v(&a[3]), Conv::from_v(&a[4]), Conv::from_v(&a[5]), Conv::from_v(&a[6]))),
    ctor_ops!(odr::common::data_types::environment::Environment, "Environment", Some(&[&[0], &[1], &[2], &[3]]); a, <odr::common::data_types::environment::Environment>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]), Conv::from_v(&a[3]))),
    ctor_ops!(odr::common::data_types::euler_angles::EulerAngles, "EulerAngles", Some(&[&[0], &[1], &[2]]); a, <odr::common::data_types::euler_angles::EulerAngles>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::event_id::EventId, "EventId", Some(&[&[0, 0], &[0, 1], &[1]]); a, <odr::common::data_types::event_id::EventId>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::fundamental_operational_data::FundamentalOperationalData, "FundamentalOperationalData", Some(&[&[0], &[1], &[2], &[3], &[4], &[5], &[6], &[7], &[8], &[9]]); a, <odr::common::data_types::fundamental_operational_data::FundamentalOperationalData>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]), Conv::from_v(&a[3]), Conv::from_v(&a[4]), Conv::from_v(&a[5]), Conv::from_v(&a[6]), Conv::from_v(&a[7]), Conv::from_v(&a[8]), Conv::from_v(&a[9]))),
    ctor_ops!(odr::common::data_types::grid_axis_descriptor::GridAxisDescriptor, "GridAxisDescriptor", Some(&[&[0], &[1], &[2], &[3], &[4], &[5]]); a, <odr::common::data_types::grid_axis_descriptor::GridAxisDescriptor>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]), Conv::from_v(&a[3]), Conv::from_v(&a[4]), Conv::from_v(&a[5]))),
    ctor_ops!(odr::common::data_types::grid_data_record::GridDataRecord, "GridDataRecord", Some(&[&[0], &[1], &[2]]); a, <odr::common::data_types::grid_data_record::GridDataRecord>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::iff_fundamental_parameter_data::IFFFundamentalParameterData, "IFFFundamentalParameterData", Some(&[&[0], &[1], &[2], &[3], &[4], &[5], &[6]]); a, <odr::common::data_types::iff_fundamental_parameter_data::IFFFundamentalParameterData>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]), Conv::from_v(&a[3]), Conv::from_v(&a[4]), Conv::from_v(&a[5]), Conv::from_v(&a[6]))),
    ctor_ops!(odr::common::data_types::intercom_communications_parameters::IntercomCommunicationsParameters, "IntercomCommunicationsParameters", Some(&[&[0], &[1], &[2]]); a, <odr::common::data_types::intercom_communications_parameters::IntercomCommunicationsParameters>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::layer_header::LayerHeader, "LayerHeader", Some(&[&[0], &[1], &[2]]); a, <odr::common::data_types::layer_header::LayerHeader>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::linear_acceleration::LinearAcceleration, "LinearAcceleration", Some(&[&[0], &[1], &[2]]); a, <odr::common::data_types::linear_acceleration::LinearAcceleration>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::linear_segment_parameter::LinearSegmentParameter, "LinearSegmentParameter", Some(&[&[0], &[1], &[2], &[3], &[4], &[5], &[6], &[7], &[8], &[9]]); a, <odr::common::data_types::linear_segment_parameter::LinearSegmentParameter>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]), Conv::from_v(&a[3]), Conv::from_v(&a[4]), Conv::from_v(&a[5]), Conv::from_v(&a[6]), Conv::from_v(&a[7]), Conv::from_v(&a[8]), Conv::from_v(&a[9]))),
    ctor_ops!(odr::common::data_types::linear_velocity::LinearVelocity, "LinearVelocity", Some(&[&[0], &[1], &[2]]); a, <odr::common::data_types::linear_velocity::LinearVelocity>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::minefield_identifier::MinefieldIdentifier, "MinefieldIdentifier", Some(&[&[0], &[1]]); a, <odr::common::data_types::minefield_identifier::MinefieldIdentifier>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]))),
    ctor_ops!(odr::common::data_types::modulation_type::ModulationType, "ModulationType", Some(&[&[0], &[1], &[2], &[3]]); a, <odr::common::data_types::modulation_type::ModulationType>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]), Conv::from_v(&a[3]))),
    ctor_ops!(odr::common::data_types::munition_descriptor::MunitionDescriptor, "MunitionDescriptor", Some(&[&[0], &[1], &[2], &[3], &[4]]); a, <odr::common::data_types::munition_descriptor::MunitionDescriptor>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]), Conv::from_v(&a[3]), Conv::from_v(&a[4]))),
    ctor_ops!(odr::common::data_types::named_location::NamedLocation, "NamedLocation", Some(&[&[0], &[1]]); a, <odr::common::data_types::named_location::NamedLocation>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]))),
    ctor_ops!(odr::common::data_types::object_identifier::ObjectIdentifier, "ObjectIdentifier", Some(&[]); _a, <odr::common::data_types::object_identifier::ObjectIdentifier>::new()),
    ctor_ops!(odr::common::data_types::object_type::ObjectType, "ObjectType", Some(&[&[0], &[1], &[2], &[3]]); a, <odr::common::data_types::object_type::ObjectType>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]), Conv::from_v(&a[3]))),
    ctor_ops!(odr::common::data_types::point::Point, "Point", Some(&[&[0], &[1]]); a, <odr::common::data_types::point::Point>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]))),
    ctor_ops!(odr::common::data_types::propulsion_system_data::PropulsionSystemData, "PropulsionSystemData", Some(&[&[0], &[1]]); a, <odr::common::data_types::propulsion_system_data::PropulsionSystemData>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]))),
    ctor_ops!(odr::common::data_types::radio_entity_type::RadioEntityType, "RadioEntityType", Some(&[&[0], &[1], &[2], &[3], &[4], &[5]]); a, <odr::common::data_types::radio_entity_type::RadioEntityType>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]), Conv::from_v(&a[3]), Conv::from_v(&a[4]), Conv::from_v(&a[5]))),
    ctor_ops!(odr::common::data_types::record_specification::RecordSpecification, "RecordSpecification", Some(&[&[0], &[1]]); a, <odr::common::data_types::record_specification::RecordSpecification>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]))),
    ctor_ops!(odr::common::data_types::record_specification_element::RecordSpecificationElement, "RecordSpecificationElement", Some(&[&[0], &[1], &[2], &[3], &[4]]); a, <odr::common::data_types::record_specification_element::RecordSpecificationElement>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]), Conv::from_v(&a[3]), Conv::from_v(&a[4]))),
    ctor_ops!(odr::common::data_types::relationship::Relationship, "Relationship", Some(&[&[0], &[1]]); a, <odr::common::data_types::relationship::Relationship>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]))),
    ctor_ops!(odr::common::data_types::secondary_operational_data::SecondaryOperationalData, "SecondaryOperationalData", Some(&[&[0], &[1], &[2]]); a, <odr::common::data_types::secondary_operational_data::SecondaryOperationalData>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::shaft_rpms::ShaftRPMs, "ShaftRPMs", Some(&[&[0], &[1], &[2]]); a, <odr::common::data_types::shaft_rpms::ShaftRPMs>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::simulation_address::SimulationAddress, "SimulationAddress", Some(&[&[0], &[1]]); a, <odr::common::data_types::simulation_address::SimulationAddress>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]))),
    ctor_ops!(odr::common::data_types::simulation_id::SimulationIdentifier, "SimulationIdentifier", Some(&[]); _a, <odr::common::data_types::simulation_id::SimulationIdentifier>::new()),
    ctor_ops!(odr::common::data_types::standard_variable_records::StandardVariableRecords, "StandardVariableRecords", Some(&[&[0], &[1], &[2]]); a, <odr::common::data_types::standard_variable_records::StandardVariableRecords>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::standard_variable_specification::StandardVariableSpecification, "StandardVariableSpecification", Some(&[&[0], &[1]]); a, <odr::common::data_types::standard_variable_specification::StandardVariableSpecification>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]))),
    ctor_ops!(odr::common::data_types::supply_quantity::SupplyQuantity, "SupplyQuantity", Some(&[&[0], &[1]]); a, <odr::common::data_types::supply_quantity::SupplyQuantity>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]))),
    ctor_ops!(odr::common::data_types::system_id::SystemId, "SystemId", Some(&[&[0], &[1], &[2], &[3]]); a, <odr::common::data_types::system_id::SystemId>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]), Conv::from_v(&a[3]))),
    ctor_ops!(odr::common::data_types::variable_parameter::VariableParameter, "VariableParameter", Some(&[&[0], &[1], &[2], &[3], &[4]]); a, <odr::common::data_types::variable_parameter::VariableParameter>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]), Conv::from_v(&a[3]), Conv::from_v(&a[4]))),
    ctor_ops!(odr::common::data_types::variable_transmitter_parameters::VariableTransmitterParameters, "VariableTransmitterParameters", Some(&[]); _a, <odr::common::data_types::variable_transmitter_parameters::VariableTransmitterParameters>::new()),
    ctor_ops!(odr::common::data_types::vector3_double::Vector3Double, "Vector3Double", Some(&[&[0], &[1], &[2]]); a, <odr::common::data_types::vector3_double::Vector3Double>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::vector3_float::Vector3Float, "Vector3Float", Some(&[&[0], &[1], &[2]]); a, <odr::common::data_types::vector3_float::Vector3Float>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::vectoring_nozzle_system_data::VectoringNozzleSystemData, "VectoringNozzleSystemData", Some(&[&[0], &[1]]); a, <odr::common::data_types::vectoring_nozzle_system_data::VectoringNozzleSystemData>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]))),
    ctor_ops!(odr::common::data_types::velocity_vector::VelocityVector, "VelocityVector", Some(&[&[0], &[1], &[2]]); a, <odr::common::data_types::velocity_vector::VelocityVector>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::world_coordinate::WorldCoordinate, "WorldCoordinate", Some(&[&[0], &[1], &[2]]); a, <odr::common::data_types::world_coordinate::WorldCoordinate>::new(Conv::from_v(&a[0]), Conv::from_v(&a[1]), Conv::from_v(&a[2]))),
    ctor_ops!(odr::common::data_types::acoustic_beam_data::AcousticBeamData, "AcousticBeamData", None; _a, <odr::common::data_types::acoustic_beam_data::AcousticBeamData as Default>::default()),
    ctor_ops!(odr::common::data_types::acoustic_beam_fundamental_parameter::AcousticBeamFundamentalParameter, "AcousticBeamFundamentalParameter", None; _a, <odr::common::data_types::acoustic_beam_fundamental_parameter::AcousticBeamFundamentalParameter as Default>::default()),
    ctor_ops!(odr::common::data_types::acoustic_emitter_system::AcousticEmitterSystem, "AcousticEmitterSystem", None; _a, <odr::common::data_types::acoustic_emitter_system::AcousticEmitterSystem as Default>::default()),
    ctor_ops!(odr::common::data_types::acoustic_emitter_system_data::AcousticEmitterSystemData, "AcousticEmitterSystemData", None; _a, <odr::common::data_types::acoustic_emitter_system_data::AcousticEmitterSystemData as Default>::default()),
    ctor_ops!(odr::common::data_types::aggregate_id::AggregateId, "AggregateId", None; _a, <odr::common::data_types::aggregate_id::AggregateId as Default>::default()),
    ctor_ops!(odr::common::data_types::aggregate_marking::AggregateMarking, "AggregateMarking", None; _a, <odr::common::data_types::aggregate_marking::AggregateMarking as Default>::default()),
    ctor_ops!(odr::common::data_types::angular_velocity_vector::AngularVelocity, "AngularVelocity", None; _a, <odr::common::data_types::angular_velocity_vector::AngularVelocity as Default>::default()),
    ctor_ops!(odr::common::data_types::apa_data::ApaData, "ApaData", None; _a, <odr::common::data_types::apa_data::ApaData as Default>::default()),
    ctor_ops!(odr::common::data_types::attribute_record::AttributeRecord, "AttributeRecord", None; _a, <odr::common::data_types::attribute_record::AttributeRecord as Default>::default()),
    ctor_ops!(odr::common::data_types::attribute_record_set::AttributeRecordSet, "AttributeRecordSet", None; _a, <odr::common::data_types::attribute_record_set::AttributeRecordSet as Default>::default()),
    ctor_ops!(odr::common::data_types::beam_data::BeamData, "BeamData", None; _a, <odr::common::data_types::beam_data::BeamData as Default>::default()),
    ctor_ops!(odr::common::data_types::clock_time::ClockTime, "ClockTime", None; _a, <odr::common::data_types::clock_time::ClockTime as Default>::default()),
    ctor_ops!(odr::common::data_types::dead_reckoning_parameters::DeadReckoningParameters, "DeadReckoningParameters", None; _a, <odr::common::data_types::dead_reckoning_parameters::DeadReckoningParameters as Default>::default()),
    ctor_ops!(odr::common::data_types::directed_energy_damage::DirectedEnergyDamage, "DirectedEnergyDamage", None; _a, <odr::common::data_types::directed_energy_damage::DirectedEnergyDamage as Default>::default()),
    ctor_ops!(odr::common::data_types::electromagnetic_emission_beam_data::ElectromagneticEmissionBeamData, "ElectromagneticEmissionBeamData", None; _a, <odr::common::data_types::electromagnetic_emission_beam_data::ElectromagneticEmissionBeamData as Default>::default()),
    ctor_ops!(odr::common::data_types::electromagnetic_emission_system_data::ElectromagneticEmissionSystemData, "ElectromagneticEmissionSystemData", None; _a, <odr::common::data_types::electromagnetic_emission_system_data::ElectromagneticEmissionSystemData as Default>::default()),
    ctor_ops!(odr::common::data_types::emitter_system::EmitterSystem, "EmitterSystem", None; _a, <odr::common::data_types::emitter_system::EmitterSystem as Default>::default()),
    ctor_ops!(odr::common::data_types::entity_coordinate_vector::EntityCoordinateVector, "EntityCoordinateVector", None; _a, <odr::common::data_types::entity_coordinate_vector::EntityCoordinateVector as Default>::default()),
    ctor_ops!(odr::common::data_types::entity_id::EntityId, "EntityId", None; _a, <odr::common::data_types::entity_id::EntityId as Default>::default()),
    ctor_ops!(odr::common::data_types::entity_marking::EntityMarking, "EntityMarking", None; _a, <odr::common::data_types::entity_marking::EntityMarking as Default>::default()),
    ctor_ops!(odr::common::data_types::entity_type::EntityType, "EntityType", None; _a, <odr::common::data_types::entity_type::EntityType as Default>::default()),
    ctor_ops!(odr::common::data_types::environment::Environment, "Environment", None; _a, <odr::common::data_types::environment::Environment as Default>::default()),
    ctor_ops!(odr::common::data_types::euler_angles::EulerAngles, "EulerAngles", None; _a, <odr::common::data_types::euler_angles::EulerAngles as Default>::default()),
    ctor_ops!(odr::common::data_types::event_id::EventId, "EventId", None; _a, <odr::common::data_types::event_id::EventId as Default>::default()),
    ctor_ops!(odr::common::data_types::fundamental_operational_data::FundamentalOperationalData, "FundamentalOperationalData", None; _a, <odr::common::data_types::fundamental_operational_data::FundamentalOperationalData as Default>::default()),
    ctor_ops!(odr::common::data_types::fundamental_parameter_data::FundamentalParameterData, "FundamentalParameterData", None; _a, <odr::common::data_types::fundamental_parameter_data::FundamentalParameterData as Default>::default()),
    ctor_ops!(odr::common::data_types::iff_fundamental_parameter_data::IFFFundamentalParameterData, "IFFFundamentalParameterData", None; _a, <odr::common::data_types::iff_fundamental_parameter_data::IFFFundamentalParameterData as Default>::default()),
    ctor_ops!(odr::common::data_types::intercom_communications_parameters::IntercomCommunicationsParameters, "IntercomCommunicationsParameters", None; _a, <odr::common::data_types::intercom_communications_parameters::IntercomCommunicationsParameters as Default>::default()),
    ctor_ops!(odr::common::data_types::layer_header::LayerHeader, "LayerHeader", None; _a, <odr::common::data_types::layer_header::LayerHeader as Default>::default()),
    ctor_ops!(odr::common::data_types::linear_acceleration::LinearAcceleration, "LinearAcceleration", None; _a, <odr::common::data_types::linear_acceleration::LinearAcceleration as Default>::default()),
    ctor_ops!(odr::common::data_types::linear_segment_parameter::LinearSegmentParameter, "LinearSegmentParameter", None; _a, <odr::common::data_types::linear_segment_parameter::LinearSegmentParameter as Default>::default()),
    ctor_ops!(odr::common::data_types::linear_velocity::LinearVelocity, "LinearVelocity", None; _a, <odr::common::data_types::linear_velocity::LinearVelocity as Default>::default()),
    ctor_ops!(odr::common::data_types::minefield_identifier::MinefieldIdentifier, "MinefieldIdentifier", None; _a, <odr::common::data_types::minefield_identifier::MinefieldIdentifier as Default>::default()),
    ctor_ops!(odr::common::data_types::modulation_type::ModulationType, "ModulationType", None; _a, <odr::common::data_types::modulation_type::ModulationType as Default>::default()),
    ctor_ops!(odr::common::data_types::munition_descriptor::MunitionDescriptor, "MunitionDescriptor", None; _a, <odr::common::data_types::munition_descriptor::MunitionDescriptor as Default>::default()),
    ctor_ops!(odr::common::data_types::named_location::NamedLocation, "NamedLocation", None; _a, <odr::common::data_types::named_location::NamedLocation as Default>::default()),
    ctor_ops!(odr::common::data_types::object_identifier::ObjectIdentifier, "ObjectIdentifier", None; _a, <odr::common::data_types::object_identifier::ObjectIdentifier as Default>::default()),
    ctor_ops!(odr::common::data_types::object_type::ObjectType, "ObjectType", None; _a, <odr::common::data_types::object_type::ObjectType as Default>::default()),
    ctor_ops!(odr::common::data_types::point::Point, "Point", None; _a, <odr::common::data_types::point::Point as Default>::default()),
    ctor_ops!(odr::common::data_types::propulsion_system_data::PropulsionSystemData, "PropulsionSystemData", None; _a, <odr::common::data_types::propulsion_system_data::PropulsionSystemData as Default>::default()),
    ctor_ops!(odr::common::data_types::radio_entity_type::RadioEntityType, "RadioEntityType", None; _a, <odr::common::data_types::radio_entity_type::RadioEntityType as Default>::default()),
    ctor_ops!(odr::common::data_types::record_specification::RecordSpecification, "RecordSpecification", None; _a, <odr::common::data_types::record_specification::RecordSpecification as Default>::default()),
    ctor_ops!(odr::common::data_types::relationship::Relationship, "Relationship", None; _a, <odr::common::data_types::relationship::Relationship as Default>::default()),
    ctor_ops!(odr::common::data_types::secondary_operational_data::SecondaryOperationalData, "SecondaryOperationalData", None; _a, <odr::common::data_types::secondary_operational_data::SecondaryOperationalData as Default>::default()),
    ctor_ops!(odr::common::data_types::shaft_rpms::ShaftRPMs, "ShaftRPMs", None; _a, <odr::common::data_types::shaft_rpms::ShaftRPMs as Default>::default()),
    ctor_ops!(odr::common::data_types::simulation_address::SimulationAddress, "SimulationAddress", None; _a, <odr::common::data_types::simulation_address::SimulationAddress as Default>::default()),
    ctor_ops!(odr::common::data_types::simulation_id::SimulationIdentifier, "SimulationIdentifier", None; _a, <odr::common::data_types::simulation_id::SimulationIdentifier as Default>::default()),
    ctor_ops!(odr::common::data_types::standard_variable_records::StandardVariableRecords, "StandardVariableRecords", None; _a, <odr::common::data_types::standard_variable_records::StandardVariableRecords as Default>::default()),
    ctor_ops!(odr::common::data_types::standard_variable_specification::StandardVariableSpecification, "StandardVariableSpecification", None; _a, <odr::common::data_types::standard_variable_specification::StandardVariableSpecification as Default>::default()),
    ctor_ops!(odr::common::data_types::supply_quantity::SupplyQuantity, "SupplyQuantity", None; _a, <odr::common::data_types::supply_quantity::SupplyQuantity as Default>::default()),
    ctor_ops!(odr::common::data_types::system_id::SystemId, "SystemId", None; _a, <odr::common::data_types::system_id::SystemId as Default>::default()),
    ctor_ops!(odr::common::data_types::track_jam_target::TrackJamTarget, "TrackJamTarget", None; _a, <odr::common::data_types::track_jam_target::TrackJamTarget as Default>::default()),
    ctor_ops!(odr::common::data_types::variable_parameter::VariableParameter, "VariableParameter", None; _a, <odr::common::data_types::variable_parameter::VariableParameter as Default>::default()),
    ctor_ops!(odr::common::data_types::variable_transmitter_parameters::VariableTransmitterParameters, "VariableTransmitterParameters", None; _a, <odr::common::data_types::variable_transmitter_parameters::VariableTransmitterParameters as Default>::default()),
    ctor_ops!(odr::common::data_types::vector3_double::Vector3Double, "Vector3Double", None; _a, <odr::common::data_types::vector3_double::Vector3Double as Default>::default()),
    ctor_ops!(odr::common::data_types::vector3_float::Vector3Float, "Vector3Float", None; _a, <odr::common::data_types::vector3_float::Vector3Float as Default>::default()),
    ctor_ops!(odr::common::data_types::vectoring_nozzle_system_data::VectoringNozzleSystemData, "VectoringNozzleSystemData", None; _a, <odr::common::data_types::vectoring_nozzle_system_data::VectoringNozzleSystemData as Default>::default()),
    ctor_ops!(odr::common::data_types::velocity_vector::VelocityVector, "VelocityVector", None; _a, <odr::common::data_types::velocity_vector::VelocityVector as Default>::default()),
    ctor_ops!(odr::common::data_types::world_coordinate::WorldCoordinate, "WorldCoordinate", None; _a, <odr::common::data_types::world_coordinate::WorldCoordinate as Default>::default()),
];
