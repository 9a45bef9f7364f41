//! Numbers Unreal assigns to the custom versions the library names.

/// Calls `$f!(type, variant, number)` for each.
macro_rules! custom_versions {
    ($f:ident) => {
        $f!(FEditorObjectVersion, BeforeCustomVersionWasAdded, 0);
        $f!(FEditorObjectVersion, GatheredTextProcessVersionFlagging, 1);
        $f!(FEditorObjectVersion, GatheredTextPackageCacheFixesV1, 2);
        $f!(FEditorObjectVersion, RootMetaDataSupport, 3);
        $f!(FEditorObjectVersion, GatheredTextPackageCacheFixesV2, 4);
        $f!(FEditorObjectVersion, TextFormatArgumentDataIsVariant, 5);
        $f!(FEditorObjectVersion, SplineComponentCurvesInStruct, 6);
        $f!(FEditorObjectVersion, ComboBoxControllerSupportUpdate, 7);
        $f!(FEditorObjectVersion, RefactorMeshEditorMaterials, 8);
        $f!(FEditorObjectVersion, AddedFontFaceAssets, 9);
        $f!(FEditorObjectVersion, UPropertryForMeshSection, 10);
        $f!(FEditorObjectVersion, WidgetGraphSchema, 11);
        $f!(FEditorObjectVersion, AddedBackgroundBlurContentSlot, 12);
        $f!(FEditorObjectVersion, StableUserDefinedEnumDisplayNames, 13);
        $f!(FEditorObjectVersion, AddedInlineFontFaceAssets, 14);
        $f!(FEditorObjectVersion, UPropertryForMeshSectionSerialize, 15);
        $f!(FEditorObjectVersion, FastWidgetTemplates, 16);
        $f!(FEditorObjectVersion, MaterialThumbnailRenderingChanges, 17);
        $f!(FEditorObjectVersion, NewSlateClippingSystem, 18);
        $f!(FEditorObjectVersion, MovieSceneMetaDataSerialization, 19);
        $f!(FEditorObjectVersion, GatheredTextEditorOnlyPackageLocId, 20);
        $f!(
            FEditorObjectVersion,
            AddedAlwaysSignNumberFormattingOption,
            21
        );
        $f!(FEditorObjectVersion, AddedMaterialSharedInputs, 22);
        $f!(FEditorObjectVersion, AddedMorphTargetSectionIndices, 23);
        $f!(
            FEditorObjectVersion,
            SerializeInstancedStaticMeshRenderData,
            24
        );
        $f!(
            FEditorObjectVersion,
            MeshDescriptionNewSerializationMovedToRelease,
            25
        );
        $f!(FEditorObjectVersion, MeshDescriptionNewAttributeFormat, 26);
        $f!(FEditorObjectVersion, ChangeSceneCaptureRootComponent, 27);
        $f!(FEditorObjectVersion, StaticMeshDeprecatedRawMesh, 28);
        $f!(FEditorObjectVersion, MeshDescriptionBulkDataGuid, 29);
        $f!(FEditorObjectVersion, MeshDescriptionRemovedHoles, 30);
        $f!(
            FEditorObjectVersion,
            ChangedWidgetComponentWindowVisibilityDefault,
            31
        );
        $f!(
            FEditorObjectVersion,
            CultureInvariantTextSerializationKeyStability,
            32
        );
        $f!(FEditorObjectVersion, ScrollBarThicknessChange, 33);
        $f!(FEditorObjectVersion, RemoveLandscapeHoleMaterial, 34);
        $f!(FEditorObjectVersion, MeshDescriptionTriangles, 35);
        $f!(FEditorObjectVersion, ComputeWeightedNormals, 36);
        $f!(FEditorObjectVersion, SkeletalMeshBuildRefactor, 37);
        $f!(
            FEditorObjectVersion,
            SkeletalMeshMoveEditorSourceDataToPrivateAsset,
            38
        );
        $f!(
            FEditorObjectVersion,
            NumberParsingOptionsNumberLimitsAndClamping,
            39
        );
        $f!(
            FEditorObjectVersion,
            SkeletalMeshSourceDataSupport16bitOfMaterialNumber,
            40
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            BeforeCustomVersionWasAdded,
            0
        );
        $f!(FUE5ReleaseStreamObjectVersion, ReflectionMethodEnum, 1);
        $f!(
            FUE5ReleaseStreamObjectVersion,
            WorldPartitionActorDescSerializeHLODInfo,
            2
        );
        $f!(FUE5ReleaseStreamObjectVersion, RemovingTessellation, 3);
        $f!(
            FUE5ReleaseStreamObjectVersion,
            LevelInstanceSerializeRuntimeBehavior,
            4
        );
        $f!(FUE5ReleaseStreamObjectVersion, PoseAssetRuntimeRefactor, 5);
        $f!(
            FUE5ReleaseStreamObjectVersion,
            WorldPartitionActorDescSerializeActorFolderPath,
            6
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            HairStrandsVertexFormatChange,
            7
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            AddChaosMaxLinearAngularSpeed,
            8
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            PackedLevelInstanceVersion,
            9
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            PackedLevelInstanceBoundsFix,
            10
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            CustomPropertyAnimGraphNodesUseOptionalPinManager,
            11
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            TextFormatArgumentData64bitSupport,
            12
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            MaterialLayerStacksAreNotParameters,
            13
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            MaterialInterfaceSavedCachedData,
            14
        );
        $f!(FUE5ReleaseStreamObjectVersion, AddClothMappingLODBias, 15);
        $f!(
            FUE5ReleaseStreamObjectVersion,
            AddLevelActorPackagingScheme,
            16
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            WorldPartitionActorDescSerializeAttachParent,
            17
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            ConvertedActorGridPlacementToSpatiallyLoadedFlag,
            18
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            ActorGridPlacementDeprecateDefaultValueFixup,
            19
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            PackedLevelActorUseWorldPartitionActorDesc,
            20
        );
        $f!(FUE5ReleaseStreamObjectVersion, AddLevelActorFolders, 21);
        $f!(
            FUE5ReleaseStreamObjectVersion,
            RemoveSkeletalMeshLODModelBulkDatas,
            22
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            ExcludeBrightnessFromEncodedHDRCubemap,
            23
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            VolumetricCloudSampleCountUnification,
            24
        );
        $f!(FUE5ReleaseStreamObjectVersion, PoseAssetRawDataGUID, 25);
        $f!(
            FUE5ReleaseStreamObjectVersion,
            ConvolutionBloomIntensity,
            26
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            WorldPartitionHLODActorDescSerializeHLODSubActors,
            27
        );
        $f!(FUE5ReleaseStreamObjectVersion, LargeWorldCoordinates, 28);
        $f!(
            FUE5ReleaseStreamObjectVersion,
            BlueprintPinsUseRealNumbers,
            29
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            UpdatedDirectionalLightShadowDefaults,
            30
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            GeometryCollectionConvexDefaults,
            31
        );
        $f!(FUE5ReleaseStreamObjectVersion, ChaosClothFasterDamping, 32);
        $f!(
            FUE5ReleaseStreamObjectVersion,
            WorldPartitionLandscapeActorDescSerializeLandscapeActorGuid,
            33
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            AddedInertiaTensorAndRotationOfMassAddedToConvex,
            34
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            ChaosInertiaConvertedToVec3,
            35
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            SerializeFloatPinDefaultValuesAsSinglePrecision,
            36
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            AnimLayeredBoneBlendMasks,
            37
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            StoreReflectionCaptureEncodedHDRDataInRG11B10Format,
            38
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            RawAnimSequenceTrackSerializer,
            39
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            RemoveDuplicatedStyleInfo,
            40
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            LinkedAnimGraphMemberReference,
            41
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            DynamicMeshComponentsDefaultUseExternalTangents,
            42
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            MediaCaptureNewResizeMethods,
            43
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            RigVMSaveDebugMapInGraphFunctionData,
            44
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            LocalExposureDefaultChangeFrom1,
            45
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            WorldPartitionActorDescSerializeActorIsListedInSceneOutliner,
            46
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            OpenColorIODisabledDisplayConfigurationDefault,
            47
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            WorldPartitionExternalDataLayers,
            48
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            ChaosClothFictitiousAngularVelocitySubframeFix,
            49
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            SinglePrecisonParticleDataPT,
            50
        );
        $f!(
            FUE5ReleaseStreamObjectVersion,
            OrthographicAutoNearFarPlane,
            51
        );
    };
}
