"""ctypes binding of esmini's two public C interfaces (esminiLib.hpp, esminiRMLib.hpp)."""
import ctypes as C
import os

D, I, U, B, S = C.c_double, C.c_int, C.c_uint32, C.c_bool, C.c_char_p


def _struct(name, fields):
    return type(name, (C.Structure,), {"_fields_": fields,
                                       "d": lambda self: {f[0]: getattr(self, f[0]) for f in self._fields_}})


ObjectState = _struct("ObjectState", [(n, I) for n in ("id", "model_id", "ctrl_type")] + [(n, D) for n in (
    "timestamp", "x", "y", "z", "h", "p", "r")] + [("roadId", U), ("junctionId", U), ("t", D), ("laneId", I), ("laneOffset", D),
    ("s", D), ("speed", D), ("centerOffsetX", D), ("centerOffsetY", D), ("centerOffsetZ", D), ("width", D), ("length", D),
    ("height", D), ("objectType", I), ("objectCategory", I), ("wheel_angle", D), ("wheel_rot", D), ("visibilityMask", I)])
RoadInfo = _struct("RoadInfo", [(n, D) for n in (
    "gx", "gy", "gz", "lx", "ly", "lz", "angle", "road_heading", "road_pitch", "road_roll", "trail_heading", "curvature",
    "speed_limit")] + [("roadId", U), ("junctionId", U), ("laneId", I), ("laneOffset", D), ("s", D), ("t", D), ("road_type", I),
                       ("road_rule", I), ("lane_type", I), ("trail_wheel_angle", D)])
RouteInfo = _struct("RouteInfo", [("x", D), ("y", D), ("z", D), ("h", D), ("roadId", U), ("junctionId", U), ("laneId", I),
                                  ("osiLaneId", I), ("laneOffset", D), ("s", D), ("t", D)])
PositionDiff = _struct("PositionDiff", [("ds", D), ("dt", D), ("dLaneId", I), ("dx", D), ("dy", D), ("oppositeLanes", B)])
SimpleVehicleState = _struct("SimpleVehicleState", [(n, D) for n in (
    "x", "y", "z", "h", "p", "speed", "wheel_rotation", "wheel_angle")])
Parameter = _struct("Parameter", [("name", S), ("value", C.c_void_p)])
OSCBoundingBox = _struct("OSCBoundingBox", [(n, D) for n in ("cx", "cy", "cz", "width", "length", "height")])
SpeedAction = _struct("SpeedAction", [("id", I), ("speed", D), ("shape", I), ("dim", I), ("value", D)])
LaneChangeAction = _struct("LaneChangeAction", [("id", I), ("mode", I), ("target", I), ("shape", I), ("dim", I), ("value", D)])
LaneOffsetAction = _struct("LaneOffsetAction", [("id", I), ("offset", D), ("maxLateralAcc", D), ("shape", I)])
RoadSign = _struct("RoadSign", [("id", I)] + [(n, D) for n in ("x", "y", "z", "z_offset", "h")] + [("roadId", I), ("s", D), ("t", D),
                   ("name", S), ("orientation", I), ("length", D), ("height", D), ("width", D)])
Validity = _struct("Validity", [("fromLane", I), ("toLane", I)])
LightState = _struct("LightState", [("light_mode", I), ("emitting", B)])
WheelData = _struct("WheelData", [(n, D) for n in ("x", "y", "z", "h", "p", "wheel_radius", "friction")] + [("axle", I), ("index", I)])
_Ped = _struct("Ped", [("active", B), ("value", D), ("maxRate", D)])
_Brk = _struct("Brk", [("active", B), ("type", I), ("value", D), ("maxRate", D), ("value_type", I)])
_Str = _struct("Str", [("active", B), ("value", D), ("maxRate", D), ("maxTorque", D)])
_Gear = _struct("Gear", [("active", B), ("type", I), ("number", I), ("value_type", I)])
OverrideList = _struct("OverrideList", [("throttle", _Ped), ("brake", _Brk), ("clutch", _Ped), ("parkingBrake", _Brk),
                                        ("steeringWheel", _Str), ("gear", _Gear)])

RM_PositionData = _struct("RM_PositionData", [(n, D) for n in ("x", "y", "z", "h", "p", "r", "hRelative")] + [
    ("roadId", U), ("junctionId", U), ("laneId", I), ("laneOffset", D), ("s", D)])
RM_XYZ = _struct("RM_XYZ", [("x", D), ("y", D), ("z", D)])
RM_RoadLaneInfo = _struct("RM_RoadLaneInfo", [("pos", RM_XYZ)] + [(n, D) for n in (
    "heading", "pitch", "roll", "width", "curvature", "speed_limit")] + [("roadId", U), ("junctionId", U), ("laneId", I),
    ("laneOffset", D), ("s", D), ("t", D), ("road_type", I), ("road_rule", I), ("lane_type", I)])
RM_RoadProbeInfo = _struct("RM_RoadProbeInfo", [("info", RM_RoadLaneInfo), ("rel", RM_XYZ), ("relative_h", D)])
RM_PositionDiff = _struct("RM_PositionDiff", [("ds", D), ("dt", D), ("dLaneId", I)])

PARAM_CB = C.CFUNCTYPE(None, C.c_void_p)
COND_CB = C.CFUNCTYPE(None, S, D)
SB_CB = C.CFUNCTYPE(None, S, I, I, S)
OBJ_CB = C.CFUNCTYPE(None, C.POINTER(ObjectState), C.c_void_p)

UNDEF = 0xFFFFFFFF
P = C.POINTER

_SIG = {
    # name: (restype, argtypes)
    "SE_AddPath": (I, [S]), "SE_ClearPaths": (None, []), "SE_SetLogFilePath": (None, [S]), "SE_SetDatFilePath": (None, [S]),
    "SE_GetSeed": (U, []), "SE_SetSeed": (None, [U]), "SE_SetOption": (I, [S]), "SE_UnsetOption": (I, [S]),
    "SE_SetOptionValue": (I, [S, S]), "SE_SetOptionPersistent": (I, [S]), "SE_SetOptionValuePersistent": (I, [S, S]),
    "SE_GetOptionValue": (S, [S]), "SE_GetOptionSet": (B, [S]), "SE_GetOptionValuesCount": (I, [S]),
    "SE_RegisterParameterDeclarationCallback": (None, [PARAM_CB, C.c_void_p]),
    "SE_SetOSITolerances": (I, [D, D]),
    "SE_SetParameterDistribution": (I, [S]), "SE_ResetParameterDistribution": (None, []),
    "SE_GetNumberOfPermutations": (U, []), "SE_SelectPermutation": (I, [U]), "SE_GetPermutationIndex": (I, []),
    "SE_Init": (I, [S, I, I, I, I]), "SE_InitWithString": (I, [S, I, I, I, I]), "SE_InitWithArgs": (I, [I, P(S)]),
    "SE_StepDT": (I, [D]), "SE_Step": (I, []), "SE_Close": (None, []), "SE_LogToConsole": (None, [B]),
    "SE_CollisionDetection": (None, [B]), "SE_GetSimulationTime": (D, []), "SE_GetSimTimeStep": (D, []),
    "SE_GetQuitFlag": (I, []), "SE_GetPauseFlag": (I, []), "SE_GetODRFilename": (S, []), "SE_GetSceneGraphFilename": (S, []),
    "SE_GetNumberOfParameters": (I, []), "SE_GetParameterName": (S, [I, P(I)]), "SE_GetNumberOfVariables": (I, []),
    "SE_GetVariableName": (S, [I, P(I)]), "SE_GetNumberOfProperties": (I, [I]), "SE_GetObjectPropertyName": (S, [I, I]),
    "SE_GetObjectPropertyValue": (S, [I, S]),
    "SE_SetParameter": (I, [Parameter]), "SE_GetParameter": (I, [P(Parameter)]),
    "SE_SetVariable": (I, [Parameter]), "SE_GetVariable": (I, [P(Parameter)]),
    "SE_GetODRManager": (C.c_void_p, []),
    "SE_SetObjectPositionMode": (None, [I, I, I]), "SE_SetObjectPositionModeDefault": (None, [I, I]),
    "SE_AddObject": (I, [S, I, I, I, I, S]),
    "SE_AddObjectWithBoundingBox": (I, [S, I, I, I, I, S, OSCBoundingBox, I]),
    "SE_DeleteObject": (I, [I]), "SE_ReportObjectPos": (I, [I] + [D] * 6), "SE_ReportObjectPosMode": (I, [I] + [D] * 6 + [I]),
    "SE_ReportObjectPosXYH": (I, [I, D, D, D]), "SE_ReportObjectRoadPos": (I, [I, U, I, D, D]),
    "SE_ReportObjectSpeed": (I, [I, D]), "SE_ReportObjectLateralPosition": (I, [I, D]),
    "SE_ReportObjectLateralLanePosition": (I, [I, I, D]), "SE_ReportObjectVel": (I, [I, D, D, D]),
    "SE_ReportObjectAngularVel": (I, [I, D, D, D]), "SE_ReportObjectAcc": (I, [I, D, D, D]),
    "SE_ReportObjectAngularAcc": (I, [I, D, D, D]), "SE_ReportObjectWheelStatus": (I, [I, D, D]),
    "SE_SetSnapLaneTypes": (I, [I, I]), "SE_SetLockOnLane": (I, [I, B]), "SE_GetNumberOfObjects": (I, []),
    "SE_GetId": (I, [I]), "SE_GetIdByName": (I, [S]), "SE_GetObjectState": (I, [I, P(ObjectState)]),
    "SE_GetObjectLightState": (I, [I, I, P(LightState)]), "SE_GetObjectRouteStatus": (I, [I]),
    "SE_GetObjectInLaneType": (I, [I]), "SE_ObjectCanChangeLanes": (I, [I]),
    "SE_GetOverrideActionStatus": (I, [I, P(OverrideList)]), "SE_GetObjectTypeName": (S, [I]), "SE_GetObjectName": (S, [I]),
    "SE_GetObjectModelFileName": (S, [I]), "SE_ObjectHasGhost": (I, [I]), "SE_GetObjectGhostId": (I, [I]),
    "SE_GetObjectGhostState": (I, [I, P(ObjectState)]), "SE_GetObjectNumberOfCollisions": (I, [I]),
    "SE_GetObjectCollision": (I, [I, I]), "SE_GetObjectOdometer": (D, [I]),
    "SE_GetObjectVelocityGlobalXYZ": (I, [I, P(D), P(D), P(D)]), "SE_GetObjectAngularVelocity": (I, [I, P(D), P(D), P(D)]),
    "SE_GetObjectAngularAcceleration": (I, [I, P(D), P(D), P(D)]), "SE_GetObjectAcceleration": (D, [I]),
    "SE_GetObjectAccelerationGlobalXYZ": (I, [I, P(D), P(D), P(D)]),
    "SE_GetObjectAccelerationLocalLatLong": (I, [I, P(D), P(D)]), "SE_GetObjectNumberOfWheels": (I, [I]),
    "SE_GetObjectWheelData": (I, [I, I, P(WheelData)]), "SE_GetSpeedUnit": (I, []),
    "SE_GetRoadInfoAtDistance": (I, [I, D, P(RoadInfo), I, B]), "SE_GetRoadInfoAlongRoute": (I, [I, D, P(RoadInfo), I, B]),
    "SE_GetRoadInfoAlongGhostTrail": (I, [I, D, P(RoadInfo), P(D), P(D)]),
    "SE_GetRoadInfoGhostTrailTime": (I, [I, D, P(RoadInfo), P(D)]),
    "SE_GetDistanceToObject": (I, [I, I, B, P(PositionDiff)]),
    "SE_SimpleGetDistanceToObject": (I, [I, I, I, D, P(D), P(D)]),
    "SE_GetTimeToCollision": (I, [I, I, I, I, B, P(D)]),
    "SE_AddObjectSensor": (I, [I, D, D, D, D, D, D, D, I]), "SE_GetNumberOfObjectSensors": (I, []),
    "SE_ViewSensorData": (I, [I]), "SE_FetchSensorObjectList": (I, [I, P(I)]),
    "SE_RegisterObjectCallback": (None, [I, OBJ_CB, C.c_void_p]), "SE_RegisterConditionCallback": (None, [COND_CB]),
    "SE_RegisterStoryBoardElementStateChangeCallback": (None, [SB_CB]),
    "SE_GetNumberOfRoadSigns": (U, [U]), "SE_GetRoadSign": (I, [U, U, P(RoadSign)]),
    "SE_GetNumberOfRoadSignValidityRecords": (U, [U, U]), "SE_GetRoadSignValidityRecord": (I, [U, U, U, P(Validity)]),
    "SE_GetRoadIdString": (S, [U]), "SE_GetRoadIdFromString": (U, [S]), "SE_GetJunctionIdString": (S, [U]),
    "SE_GetJunctionIdFromString": (U, [S]), "SE_LogMessage": (None, [S]), "SE_CloseLogFile": (None, []),
    "SE_SimpleVehicleCreate": (C.c_void_p, [D] * 5), "SE_SimpleVehicleDelete": (None, [C.c_void_p]),
    "SE_SimpleVehicleControlBinary": (None, [C.c_void_p, D, I, I]), "SE_SimpleVehicleControlAnalog": (None, [C.c_void_p, D, D, D]),
    "SE_SimpleVehicleControlAccAndSteer": (None, [C.c_void_p, D, D, D]),
    "SE_SimpleVehicleControlTarget": (None, [C.c_void_p, D, D, D]), "SE_SimpleVehicleSetSpeed": (None, [C.c_void_p, D]),
    "SE_SimpleVehicleSetMaxSpeed": (None, [C.c_void_p, D]), "SE_SimpleVehicleSetMaxAcceleration": (None, [C.c_void_p, D]),
    "SE_SimpleVehicleSetMaxDeceleration": (None, [C.c_void_p, D]), "SE_SimpleVehicleSetEngineBrakeFactor": (None, [C.c_void_p, D]),
    "SE_SimpleVehicleSteeringScale": (None, [C.c_void_p, D]), "SE_SimpleVehicleSteeringReturnFactor": (None, [C.c_void_p, D]),
    "SE_SimpleVehicleSteeringRate": (None, [C.c_void_p, D]), "SE_SimpleVehicleGetState": (None, [C.c_void_p, P(SimpleVehicleState)]),
    "SE_GetNumberOfRoutePoints": (I, [I]), "SE_GetRoutePoint": (I, [I, U, P(RouteInfo)]), "SE_GetRouteTotalLength": (D, [I]),
    "SE_InjectSpeedAction": (None, [P(SpeedAction)]), "SE_InjectLaneChangeAction": (None, [P(LaneChangeAction)]),
    "SE_InjectLaneOffsetAction": (None, [P(LaneOffsetAction)]), "SE_InjectedActionOngoing": (B, [I]),
    # RM
    "RM_Init": (I, [S]), "RM_InitWithString": (I, [S]), "RM_Close": (I, []), "RM_SetLogFilePath": (None, [S]),
    "RM_CreatePosition": (I, []), "RM_GetNrOfPositions": (I, []), "RM_DeletePosition": (I, [I]), "RM_CopyPosition": (I, [I]),
    "RM_SetObjectPositionMode": (None, [I, I, I]), "RM_SetObjectPositionModeDefault": (None, [I, I]),
    "RM_SetSnapLaneTypes": (I, [I, I]), "RM_SetLockOnLane": (I, [I, B]), "RM_GetNumberOfRoads": (I, []),
    "RM_GetSpeedUnit": (I, []), "RM_GetIdOfRoadFromIndex": (U, [U]), "RM_GetRoadLength": (D, [U]),
    "RM_GetRoadIdString": (S, [U]), "RM_GetRoadIdFromString": (U, [S]), "RM_GetJunctionIdString": (S, [U]),
    "RM_GetJunctionIdFromString": (U, [S]), "RM_GetRoadNumberOfLanes": (I, [U, D, I]),
    "RM_GetLaneIdByIndex": (I, [U, I, D, I, P(I)]), "RM_GetRoadNumberOfDrivableLanes": (I, [U, D]),
    "RM_GetDrivableLaneIdByIndex": (I, [U, I, D, P(I)]), "RM_GetNumberOfRoadsOverlapping": (I, [I]),
    "RM_GetOverlappingRoadId": (U, [I, U]), "RM_SetLanePosition": (I, [I, U, I, D, D, B]),
    "RM_SetRoadPosition": (I, [I, U, D, D, B]), "RM_SetS": (I, [I, D]), "RM_SetWorldPosition": (I, [I] + [D] * 6),
    "RM_SetWorldXYHPosition": (I, [I, D, D, D]), "RM_SetWorldXYZHPosition": (I, [I, D, D, D, D]),
    "RM_SetWorldPositionMode": (I, [I] + [D] * 6 + [I]), "RM_SetH": (I, [I, D]), "RM_SetHMode": (I, [I, D, I]),
    "RM_SetRoadId": (I, [I, U]), "RM_PositionMoveForward": (I, [I, D, D]), "RM_GetPositionData": (I, [I, P(RM_PositionData)]),
    "RM_GetSpeedLimit": (D, [I]), "RM_GetLaneInfo": (I, [I, D, P(RM_RoadLaneInfo), I, B]),
    "RM_GetProbeInfo": (I, [I, D, P(RM_RoadProbeInfo), I, B]), "RM_GetLaneWidth": (I, [I, I, P(D)]),
    "RM_GetLaneWidthByRoadId": (I, [U, I, D, P(D)]), "RM_GetLaneType": (I, [I, I]), "RM_GetInLaneType": (I, [I]),
    "RM_GetLaneTypeByRoadId": (I, [U, I, D]), "RM_SubtractAFromB": (I, [I, I, P(RM_PositionDiff)]),
    "RM_GetNumberOfRoadSigns": (I, [U]), "RM_GetRoadSign": (I, [U, U, P(RoadSign)]),
    "RM_GetNumberOfRoadSignValidityRecords": (I, [U, U]), "RM_GetRoadSignValidityRecord": (I, [U, U, U, P(Validity)]),
    "RM_SetOption": (I, [S]), "RM_SetOptionValue": (I, [S, S]), "RM_GetOptionValue": (S, [S]), "RM_GetOptionSet": (B, [S]),
}
for _a in ("Parameter", "Variable"):
    for _t, _ct in (("Int", I), ("Double", D), ("String", S), ("Bool", B)):
        _SIG[f"SE_Get{_a}{_t}"] = (I, [S, P(_ct)])
        _SIG[f"SE_Set{_a}{_t}"] = (I, [S, _ct])

_lib = None


def load(path):
    global _lib
    if _lib is None:
        _lib = C.CDLL(path, mode=os.RTLD_LOCAL | os.RTLD_NOW)
        for n, (r, a) in _SIG.items():
            f = getattr(_lib, n)
            f.restype, f.argtypes = r, a
    return _lib


class SE:
    """One simulation in this process, with every callback recorded as an event."""

    def __init__(self, lib, quiet=True):
        self.l = lib
        self.events = []      # ("sb", frame, time, name, type, state, path) | ("cond", frame, time, name, ts)
        self.frame = -1
        self._keep = []
        lib.SE_SetLogFilePath(b"")
        lib.SE_LogToConsole(False)
        self.quiet = quiet
        self.on_params = None

    def _hook(self, _):
        def sb(name, typ, state, path):
            self.events.append(("sb", self.frame, self.l.SE_GetSimulationTime() if self.frame >= 0 else 0.0, name.decode(), typ, state, path.decode()))

        def cond(name, ts):
            self.events.append(("cond", self.frame, ts, name.decode()))
        a, b = SB_CB(sb), COND_CB(cond)
        self._keep += [a, b]
        self.l.SE_RegisterStoryBoardElementStateChangeCallback(a)
        self.l.SE_RegisterConditionCallback(b)
        if self.on_params:
            self.on_params(self)

    def init(self, xosc=None, xml=None, disable_ctrls=0, record=0, args=None):
        cb = PARAM_CB(self._hook)
        self._keep.append(cb)
        self.l.SE_RegisterParameterDeclarationCallback(cb, None)
        if args is not None:
            arr = (S * len(args))(*[a.encode() for a in args])
            rc = self.l.SE_InitWithArgs(len(args), arr)
        elif xml is not None:
            rc = self.l.SE_InitWithString(xml.encode(), disable_ctrls, 0, 0, record)
        else:
            rc = self.l.SE_Init(xosc.encode(), disable_ctrls, 0, 0, record)
        if rc == 0:
            self.frame = 0
        return rc

    def step(self, dt):
        self.frame += 1
        return self.l.SE_StepDT(dt)

    def close(self):
        self.l.SE_Close()

    def time(self):
        return self.l.SE_GetSimulationTime()

    def ids(self):
        return [self.l.SE_GetId(i) for i in range(self.l.SE_GetNumberOfObjects())]

    def state(self, oid):
        st = ObjectState()
        rc = self.l.SE_GetObjectState(oid, C.byref(st))
        return st if rc == 0 else None

    def vec(self, fn, oid, n=3):
        v = [D() for _ in range(n)]
        rc = getattr(self.l, fn)(oid, *[C.byref(x) for x in v])
        return [x.value for x in v] if rc == 0 else None
