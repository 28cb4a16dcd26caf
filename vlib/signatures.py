"""Constructor parameters, in their documented order (positional use is part of
the interface: the examples and the package itself rely on it)."""

PARAMS = {
    'EntityStateUpdatePdu': (
        'entityID entityLinearVelocity entityLocation entityOrientation '
        'entityAppearance variableParameters').split(),
    'ServiceRequestPdu': 'requestingEntityID servicingEntityID serviceTypeRequested supplies'.split(),
    'RepairCompletePdu': 'receivingEntityID repairingEntityID repair'.split(),
    'CollisionPdu': (
        'issuingEntityID collidingEntityID eventID collisionType velocity '
        'mass location').split(),
    'RepairResponsePdu': 'receivingEntityID repairingEntityID repairResult'.split(),
    'DataQueryPdu': 'requestID timeInterval fixedDatumIDs variableDatumIDs'.split(),
    'LinearObjectStatePdu': (
        'objectID referencedObjectID updateNumber forceID requesterID '
        'receivingID objectType linearSegmentParameters').split(),
    'CreateEntityPdu': 'requestID'.split(),
    'IntercomSignalPdu': (
        'entityID communicationsDeviceID encodingScheme tdlType sampleRate '
        'samples data').split(),
    'RemoveEntityPdu': 'requestID'.split(),
    'ResupplyReceivedPdu': 'receivingEntityID supplyingEntityID supplies'.split(),
    'CollisionElasticPdu': (
        'issuingEntityID collidingEntityID collisionEventID contactVelocity '
        'mass locationOfImpact collisionIntermediateResultXX '
        'collisionIntermediateResultXY collisionIntermediateResultXZ '
        'collisionIntermediateResultYY collisionIntermediateResultYZ '
        'collisionIntermediateResultZZ unitSurfaceNormal '
        'coefficientOfRestitution').split(),
    'ActionRequestPdu': 'requestID actionID fixedDatumRecords variableDatumRecords'.split(),
    'AcknowledgePdu': 'acknowledgeFlag responseFlag requestID'.split(),
    'ActionRequestReliablePdu': (
        'requiredReliabilityService requestID actionID fixedDatumRecords '
        'variableDatumRecords').split(),
    'DesignatorPdu': (
        'designatingEntityID codeName designatedEntityID designatorCode '
        'designatorPower designatorWavelength designatorSpotWrtDesignated '
        'designatorSpotLocation deadReckoningAlgorithm '
        'entityLinearAcceleration').split(),
    'StopFreezePdu': 'realWorldTime reason frozenBehavior requestID'.split(),
    'EntityStatePdu': (
        'entityID forceId entityType alternativeEntityType '
        'entityLinearVelocity entityLocation entityOrientation '
        'entityAppearance deadReckoningParameters marking capabilities '
        'variableParameters').split(),
    'StartResumePdu': 'realWorldTime simulationTime requestID'.split(),
    'TransmitterPdu': (
        'radioReferenceID radioNumber radioEntityType transmitState '
        'inputSource antennaLocation relativeAntennaLocation '
        'antennaPatternType frequency transmitFrequencyBandwidth power '
        'modulationType cryptoSystem cryptoKeyId modulationParameters '
        'antennaPattern variableTransmitterParameters').split(),
    'ElectromagneticEmissionsPdu': 'emittingEntityID eventID stateUpdateIndicator systems'.split(),
    'ResupplyOfferPdu': 'receivingEntityID supplyingEntityID supplies'.split(),
    'AttributePdu': (
        'originatingSimulationAddress attributeRecordPduType '
        'attributeRecordProtocolVersion masterAttributeRecordType '
        'actionCode numberOfAttributeRecordSets').split(),
    'SetDataReliablePdu': (
        'requiredReliabilityService requestID fixedDatumRecords '
        'variableDatumRecords').split(),
    'EventReportPdu': 'eventType fixedDatumRecords variableDatumRecords'.split(),
    'PointObjectStatePdu': (
        'objectID referencedObjectID updateNumber forceID modifications '
        'objectType objectLocation objectOrientation objectAppearance '
        'requesterID receivingID').split(),
    'DataPdu': 'requestID fixedDatumRecords variableDatumRecords'.split(),
    'FastEntityStatePdu': (
        'site application entity forceId numberOfVariableParameters '
        'entityKind domain country category subcategory specific extra '
        'altEntityKind altDomain altCountry altCategory altSubcategory '
        'altSpecific altExtra xVelocity yVelocity zVelocity xLocation '
        'yLocation zLocation psi theta phi entityAppearance '
        'deadReckoningAlgorithm otherParameters xAcceleration yAcceleration '
        'zAcceleration xAngularVelocity yAngularVelocity zAngularVelocity '
        'marking capabilities variableParameters').split(),
    'AcknowledgeReliablePdu': 'acknowledgeFlag responseFlag requestID'.split(),
    'StartResumeReliablePdu': 'realWorldTime simulationTime requiredReliabilityService requestID'.split(),
    'ArealObjectStatePdu': (
        'objectID referencedObjectID updateNumber forceId modifications '
        'objectType specificObjectAppearance generalObjectAppearance '
        'requesterID receivingID objectLocation').split(),
    'DataQueryReliablePdu': (
        'requiredReliabilityService requestID timeInterval fixedDatumIDs '
        'variableDatumIDs').split(),
    'MinefieldStatePdu': (
        'minefieldID minefieldSequence forceID minefieldType '
        'minefieldLocation minefieldOrientation appearance protocolMode '
        'perimeterPoints mineTypes').split(),
    'DataReliablePdu': (
        'requestID requiredReliabilityService fixedDatumRecords '
        'variableDatumRecords').split(),
    'CommentPdu': 'fixedDatumRecords variableDatumRecords'.split(),
    'CommentReliablePdu': 'fixedDatumRecords variableDatumRecords'.split(),
    'DirectedEnergyFirePdu': (
        'munitionType shotStartTime cumulativeShotTime '
        'apertureEmitterLocation apertureDiameter wavelength '
        'pulseRepetitionFrequency pulseWidth flags pulseShape dERecords').split(),
    'DetonationPdu': (
        'explodingEntityID eventID velocity location descriptor '
        'locationInEntityCoordinates detonationResult variableParameters').split(),
    'SetDataPdu': 'requestID fixedDatumRecords variableDatumRecords'.split(),
    'RecordQueryReliablePdu': 'requestID requiredReliabilityService eventType time recordIDs'.split(),
    'ActionResponsePdu': 'requestID requestStatus fixedDatumRecords variableDatumRecords'.split(),
    'EntityDamageStatusPdu': 'damagedEntityID damageDescriptions'.split(),
    'FirePdu': (
        'munitionExpendableID eventID fireMissionIndex location descriptor '
        'velocity range_').split(),
    'ReceiverPdu': 'receiverState receivedPower transmitterEntityID transmitterRadioId'.split(),
    'UaPdu': (
        'emittingEntityID eventID stateChangeIndicator '
        'passiveParameterIndex propulsionPlantConfiguration shaftRPMs '
        'apaData emitterSystems').split(),
    'IntercomControlPdu': (
        'controlType communicationsChannelType sourceEntityID '
        'sourceCommunicationsDeviceID sourceLineID transmitPriority '
        'transmitLineState command masterEntityID '
        'masterCommunicationsDeviceID intercomParameters').split(),
    'SignalPdu': 'entityID radioID encodingScheme tdlType sampleRate samples data'.split(),
    'RemoveEntityReliablePdu': 'requiredReliabilityService requestID'.split(),
    'SeesPdu': (
        'originatingEntityID infraredSignatureRepresentationIndex '
        'acousticSignatureRepresentationIndex '
        'radarCrossSectionSignatureRepresentationIndex propulsionSystemData '
        'vectoringSystemData').split(),
    'CreateEntityReliablePdu': 'requiredReliabilityService requestID'.split(),
    'StopFreezeReliablePdu': (
        'realWorldTime reason frozenBehavior requiredReliabilityService '
        'requestID').split(),
    'EventReportReliablePdu': 'eventType fixedDatumRecords variableDatumRecords'.split(),
    'MinefieldResponseNackPdu': 'minefieldID requestingEntityID requestID missingPduSequenceNumbers'.split(),
    'ActionResponseReliablePdu': 'requestID responseStatus fixedDatumRecords variableDatumRecords'.split(),
    'IsPartOfPdu': (
        'originatingEntityID receivingEntityID relationship partLocation '
        'namedLocationID partEntityType').split(),
    'AggregateStatePdu': (
        'aggregateID forceID aggregateState aggregateType formation '
        'aggregateMarking dimensions orientation centerOfMass velocity '
        'aggregateIDs entityIDs silentAggregateSystems silentEntitySystems '
        'variableDatumRecords').split(),
    'SimulationAddress': 'site application'.split(),
    'EntityIdentifier': 'simulationAddress entityNumber'.split(),
    'EventIdentifier': 'simulationAddress eventNumber'.split(),
    'EulerAngles': 'psi theta phi'.split(),
    'Vector3Float': 'x y z'.split(),
    'WorldCoordinates': 'x y z'.split(),
    'Vector2Float': 'x y'.split(),
    'EntityType': 'entityKind domain country category subcategory specific extra'.split(),
    'DataQueryDatumSpecification': 'fixedDatumIDs variableDatumIDs'.split(),
    'RadioIdentifier': 'siteNumber applicationNumber referenceNumber radioNumber'.split(),
    'RequestID': 'requestID'.split(),
    'IFFData': 'recordType recordLength iffData'.split(),
    'MunitionDescriptor': 'munitionType warhead fuse quantity rate'.split(),
    'MinefieldSensorType': 'sensorType'.split(),
    'GroupID': 'simulationAddress groupNumber'.split(),
    'LayerHeader': 'layerNumber layerSpecificInformation length'.split(),
    'UnsignedDISInteger': 'val'.split(),
    'DeadReckoningParameters': (
        'deadReckoningAlgorithm parameters entityLinearAcceleration '
        'entityAngularVelocity').split(),
    'ProtocolMode': 'protocolMode'.split(),
    'AngleDeception': (
        'emitterNumber beamNumber stateIndicator azimuthOffset azimuthWidth '
        'azimuthPullRate azimuthPullAcceleration elevationOffset '
        'elevationWidth elevationPullRate elevationPullAcceleration').split(),
    'EntityAssociation': (
        'changeIndicator associationStatus associationType entityID '
        'ownStationLocation physicalConnectionType groupMemberType '
        'groupNumber').split(),
    'VectoringNozzleSystem': 'horizontalDeflectionAngle verticalDeflectionAngle'.split(),
    'FalseTargetsAttribute': (
        'emitterNumber beamNumber stateIndicator falseTargetCount walkSpeed '
        'walkAcceleration maximumWalkDistance keepTime echoSpacing').split(),
    'MinefieldIdentifier': 'simulationAddress minefieldNumber'.split(),
    'RadioType': 'domain country category subcategory specific extra'.split(),
    'NamedLocationIdentification': 'stationName stationNumber'.split(),
    'IFFDataSpecification': 'iffDataRecords'.split(),
    'OwnershipStatus': 'entityId ownershipStatus'.split(),
    'AttachedParts': 'detachedIndicator partAttachedTo parameterType attachedPartType'.split(),
    'Attribute': 'recordType recordLength recordSpecificFields'.split(),
    'RecordQuerySpecification': 'recordIDs'.split(),
    'ArticulatedParts': 'changeIndicator partAttachedTo parameterType parameterValue'.split(),
    'ObjectType': 'domain objectKind category subcategory'.split(),
    'Association': 'associationType associatedEntityID associatedLocation'.split(),
    'RecordSpecificationElement': (
        'recordID recordSetSerialNumber recordLength recordCount '
        'recordValues').split(),
    'AntennaLocation': 'antennaLocation relativeAntennaLocation'.split(),
    'ObjectIdentifier': 'simulationAddress objectNumber'.split(),
    'AggregateIdentifier': 'simulationAddress aggregateID'.split(),
    'FixedDatum': 'fixedDatumID fixedDatumValue'.split(),
    'VariableParameter': (
        'recordType variableParameterFields1 variableParameterFields2 '
        'variableParameterFields3 variableParameterFields4').split(),
    'ChangeOptions': [],
    'LiveSimulationAddress': 'liveSiteNumber liveApplicationNumber'.split(),
    'EntityMarking': 'characterSet characters'.split(),
    'UAFundamentalParameter': (
        'activeEmissionParameterIndex scanPattern '
        'beamCenterAzimuthHorizontal azimuthBeamwidthHorizontal '
        'beamCenterDepressionElevation beamwidthDownElevation').split(),
    'ExplosionDescriptor': 'explodingObject explosiveMaterial explosiveForce'.split(),
    'ClockTime': 'hour timePastHour'.split(),
    'SecondaryOperationalData': (
        'operationalData1 operationalData2 '
        'numberOfIFFFundamentalParameterRecords').split(),
    'EnvironmentType': 'entityKind domain entityClass category subcategory specific extra'.split(),
    'TotalRecordSets': 'totalRecordSets'.split(),
    'MineEntityIdentifier': 'simulationAddress mineEntityNumber'.split(),
    'Relationship': 'nature position'.split(),
    'EEFundamentalParameterData': (
        'frequency frequencyRange effectiveRadiatedPower '
        'pulseRepetitionFrequency pulseWidth beamAzimuthCenter '
        'beamAzimuthSweep beamElevationCenter beamElevationSweep '
        'beamSweepSync').split(),
    'JammingTechnique': 'kind category subcategory specific'.split(),
    'DatumSpecification': 'fixedDatumRecords variableDatumRecords'.split(),
    'Expendable': 'expendable station quantity expendableStatus'.split(),
    'IOCommunicationsNode': 'communicationsNodeType communicationsNodeID'.split(),
    'LinearSegmentParameter': (
        'segmentNumber segmentModification generalSegmentAppearance '
        'specificSegmentAppearance segmentLocation segmentOrientation '
        'segmentLength segmentWidth segmentHeight segmentDepth').split(),
    'SystemIdentifier': 'systemType systemName systemMode changeOptions'.split(),
    'TrackJamData': 'entityID emitterNumber beamNumber'.split(),
    'AggregateType': (
        'aggregateKind domain country category subcategory specificInfo '
        'extra').split(),
    'SimulationManagementPduHeader': 'pduHeader originatingID receivingID'.split(),
    'BeamData': (
        'beamAzimuthCenter beamAzimuthSweep beamElevationCenter '
        'beamElevationSweep beamSweepSync').split(),
    'EngineFuel': 'fuelQuantity fuelMeasurementUnits fuelType fuelLocation'.split(),
    'IOEffect': (
        'ioStatus ioLinkType ioEffect ioEffectDutyCycle ioEffectDuration '
        'ioProcess').split(),
    'SimulationIdentifier': 'simulationAddress referenceNumber'.split(),
    'GridAxisDescriptorVariable': (
        'domainInitialXi domainFinalXi domainPointsXi interleafFactor '
        'axisType numberOfPointsOnXiAxis initialIndex coordinateScaleXi '
        'coordinateOffsetXi xiValues').split(),
    'SupplyQuantity': 'supplyType quantity'.split(),
    'SilentEntitySystem': 'numberOfEntities entityType appearanceRecordList'.split(),
    'SilentAggregateSystem': 'numberOfAggregates aggregateType'.split(),
    'BlankingSector': (
        'emitterNumber beamNumber stateIndicator leftAzimuth rightAzimuth '
        'lowerElevation upperElevation residualPower').split(),
    'LaunchedMunitionRecord': 'fireEventID firingEntityID targetEntityID targetLocation'.split(),
    'IFFFundamentalParameterData': (
        'erp frequency pgrf pulseWidth burstLength applicableModes '
        'systemSpecificData').split(),
    'FundamentalOperationalData': (
        'systemStatus dataField1 informationLayers dataField2 parameter1 '
        'parameter2 parameter3 parameter4 parameter5 parameter6').split(),
    'IntercomCommunicationsParameters': 'recordType recordLength recordSpecificField'.split(),
    'Munition': 'munitionType station quantity munitionStatus'.split(),
    'StandardVariableSpecification': 'standardVariables'.split(),
    'Environment': 'environmentType length index'.split(),
    'AcousticEmitter': 'acousticSystemName acousticFunction acousticIDNumber'.split(),
    'AngularVelocityVector': 'x y z'.split(),
    'AggregateMarking': 'characterSet characters'.split(),
    'DataFilterRecord': 'bitFlags'.split(),
    'IntercomIdentifier': 'siteNumber applicationNumber referenceNumber intercomNumber'.split(),
    'StorageFuel': 'fuelQuantity fuelMeasurementUnits fuelType fuelLocation'.split(),
    'Sensor': 'sensorTypeSource sensorOnOffStatus sensorType station quantity'.split(),
    'MunitionReload': (
        'munitionType station standardQuantity maximumQuantity '
        'standardQuantityReloadTime maximumQuantityReloadTime').split(),
    'StorageFuelReload': (
        'standardQuantity maximumQuantity standardQuantityReloadTime '
        'maximumQuantityReloadTime fuelMeasurementUnits fuelType '
        'fuelLocation').split(),
    'ExpendableReload': (
        'expendable station standardQuantity maximumQuantity '
        'standardQuantityReloadTime maximumQuantityReloadTime').split(),
    'EngineFuelReload': (
        'standardQuantity maximumQuantity standardQuantityReloadTime '
        'maximumQuantityReloadTime fuelMeasurementUnits fuelLocation').split(),
    'UnattachedIdentifier': 'simulationAddress referenceNumber'.split(),
    'EntityTypeVP': 'changeIndicator entityType'.split(),
    'BeamStatus': 'beamState'.split(),
    'EnvironmentGeneral': 'environmentType length index geometry'.split(),
    'GridAxis': (
        'domainInitialXi domainFinalXi domainPointsXi interleafFactor '
        'axisType numberOfPointsOnXiAxis initialIndex').split(),
    'RecordSpecification': 'recordSets'.split(),
    'VariableDatum': 'variableDatumID variableDatumLength variableData'.split(),
    'EventIdentifierLiveEntity': 'siteNumber applicationNumber eventNumber'.split(),
    'PduHeader': (
        'protocolVersion exerciseID pduType protocolFamily timestamp '
        'pduLength pduStatus').split(),
    'CommunicationsNodeID': 'entityID elementID'.split(),
    'ExpendableDescriptor': 'expendableType'.split(),
    'PropulsionSystemData': 'powerSetting engineRpm'.split(),
    'LiveEntityIdentifier': 'liveSimulationAddress entityNumber'.split(),
    'SeparationVP': (
        'reasonForSeparation preEntityIndicator parentEntityID '
        'stationLocation').split(),
    'EmitterSystem': 'emitterName emitterFunction emitterIDNumber'.split(),
    'PduStatus': 'pduStatus'.split(),
    'EmissionSystemBeamRecord': (
        'beamDataLength beamIDNumber beamParameterIndex '
        'fundamentalParameterData beamFunction highDensityTrackJam '
        'beamStatus jammingModeSequence trackJamRecords').split(),
    'EmissionSystemRecord': 'systemDataLength emitterSystem location beamRecords'.split(),
    'SpreadSpectrum': 'frequencyHopping pseudoNoise timeHopping padding'.split(),
    'NetId': 'netNumber frequencyTable mode padding'.split(),
    'DEFireFlags': 'weaponOn stateUpdateFlag'.split(),
    'ModulationType': 'spreadSpectrum majorModulation detail radioSystem'.split(),
    'BeamAntennaPattern': (
        'beamDirection azimuthBeamwidth elevationBeamwidth referenceSystem '
        'ez ex phase').split(),
    'GenericRadio': [],
    'SimpleIntercomRadio': [],
    'BasicHaveQuickMP': (
        'net_id mwod_index reserved16 reserved8_1 reserved8_2 time_of_day '
        'padding').split(),
    'CCTTSincgarsMP': (
        'fh_net_id hop_set_id lockout_set_id start_of_message clear_channel '
        'fh_sync_time_offset transmission_security_key').split(),
    'DirectedEnergyTargetEnergyDeposition': 'targetEntityID peakIrradiance'.split(),
    'DirectedEnergyAreaAimpoint': 'beamAntennaPatterns directedEnergyTargetEnergyDepositions'.split(),
    'DirectedEnergyDamage': (
        'damageLocation damageDiameter temperature componentIdentification '
        'componentDamageStatus componentVisualDamageStatus '
        'componentVisualSmokeColor fireEventID').split(),
    'DirectedEnergyPrecisionAimpoint': (
        'targetSpotLocation targetSpotEntityLocation targetSpotVelocity '
        'targetSpotAcceleration targetEntityID targetComponentID '
        'beamSpotType beamSpotCrossSectionSemiMajorAxis '
        'beamSpotCrossSectionSemiMinorAxis '
        'beamSpotCrossSectionOrientationAngle peakIrradiance').split(),
    'HighFidelityHAVEQUICKRadio': 'netId todTransmitIndicator todDelta wod1 wod2 wod3 wod4 wod5 wod6'.split(),
}
