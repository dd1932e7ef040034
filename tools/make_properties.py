import json
P=[]
RM="EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp"
SE="EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/"
OT="EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/"
CM="EnvironmentSimulator/Modules/CommonMini/"
PB="EnvironmentSimulator/Modules/PlayerBase/"
SL="EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp"
RL="EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp"
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
      "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe),"hook_needed":hook}})

p("C01","Valid input never causes a memory error, undefined behaviour or a leak",
 "For every well-formed scenario and road network, and for every sequence of public library calls on it - including ids and indices that do not exist, calls before initialisation and after close, and repeated initialise/close cycles - the simulator performs no invalid memory access, no undefined arithmetic and no use of released objects. A call that refers to something that does not exist returns its documented error value. After close, all memory the run allocated has been released.",
 ["inputs","histories"],"all well-formed scenario/road files x all API call sequences",
 "The unit tests run an uninstrumented Release build: an out-of-bounds read or use-after-free that returns plausible bytes passes, and they call the API with a handful of (mostly valid) arguments.",
 ["EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp","EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp",RM,SE+"ScenarioReader.cpp",SE+"Entities.cpp",PB+"playerbase.cpp"],
 [("id/index guards in every API function","esminiLib.cpp getObjectById(), esminiRMLib.cpp handle checks"),("ownership of roads, entities, storyboard and catalogs","destructors of OpenDrive, Entities, StoryBoard, ScenarioEngine")],
 observe=["AddressSanitizer/LeakSanitizer/UBSan reports","API return values"])

p("C02","Road coordinates map to the world pose that the OpenDRIVE file defines",
 "For every road built from line, arc, spiral, cubic and parametric-cubic geometry with arbitrary elevation, superelevation, lane-offset and lane-width profiles, setting a position by road coordinates (s, t) or lane coordinates (s, lane, offset) yields the world x, y, z, heading, pitch and roll that those OpenDRIVE profiles define at that point. This includes the values at and on both sides of every profile record boundary, and both driving directions.",
 ["inputs"],"all road descriptions x all (s,t)/(s,lane,offset)",
 "Unit tests check a few dozen hand-computed points on a few fixed roads; profile combinations, record boundaries and long chains of geometries are not sampled.",
 [RM,"EnvironmentSimulator/Modules/RoadManager/odrSpiral.cpp",RL],
 [("geometry evaluation","RoadManager.cpp Geometry/Line/Arc/Spiral/Poly3/ParamPoly3::EvaluateDS"),("elevation, superelevation and lane offset lookup","RoadManager.cpp Road::GetZAndPitchByS, UpdateZAndRollBySAndT, GetLaneOffset"),("road to world","RoadManager.cpp Position::Track2XYZ, Lane2Track")],
 observe=["RM_SetLanePosition/RM_SetRoadPosition then RM_GetPositionData","RM_GetLaneInfo heading/curvature"])

p("C03","World positions map back to the road coordinates they came from",
 "For every position on a road, converting its world coordinates back to road coordinates returns the same road, s and lateral position (or, where roads overlap, an equally near one) and a lane and lane offset that denote the same point. For every world position, on or off the road, the resulting road coordinates denote a point of the reported road that is no farther away than any other road point, and the world coordinates themselves are kept.",
 ["inputs","histories"],"all road networks x all world positions x all sequences of such conversions on one position object",
 "Tests check a few points, each from a fresh position; the search uses cached road/sample hints from earlier positions, so the result may depend on history.",
 [RM,RL],
 [("closest-point search over sampled road points","RoadManager.cpp Position::XYZ2TrackPos, XYZ2Track"),("sampling of reference lines","RoadManager.cpp OpenDrive::SetRoadOSI, Lane OSI points"),("lane snapping","RoadManager.cpp Position::Track2Lane, LaneSection::GetClosestLaneIdx")],
 observe=["RM_SetWorldXYHPosition then RM_GetPositionData"])

p("C04","Lane and road attribute queries agree with the OpenDRIVE file",
 "At every s of every road, the reported lanes (their number for any lane-type mask, their ids by index, types and widths), the speed limit, road type and traffic rule equal what the lane sections and records of the OpenDRIVE file declare for that s. Road and junction string ids map one-to-one to the numeric ids and back, and road signs are reported exactly once with their declared position and validity.",
 ["inputs"],"all road descriptions x all s, lane ids, lane-type masks, indices",
 "Fixed road files and a few s-values; record/lane-section boundaries and mask/index combinations are unsampled.",
 [RM,RL],
 [("lane section lookup","RoadManager.cpp Road::GetLaneSectionIdxByS, LaneSection::GetLaneById, GetNumberOfLanes*"),("lane width records","RoadManager.cpp LaneSection::GetWidth"),("road type records","RoadManager.cpp Road::GetSpeedByS/GetRoadType")],
 observe=["RM_GetRoadNumberOfLanes, RM_GetLaneIdByIndex, RM_GetLaneWidthByRoadId, RM_GetLaneTypeByRoadId, RM_GetSpeedLimit, RM_GetRoadSign, RM_GetRoadIdFromString"])

p("C05","Moving along the network follows declared links and conserves distance",
 "Moving a position forward or backward by a distance along any connected road network ends on the road and lane reached by following the declared road, lane-section and junction lane links, at exactly that distance measured along the traversed reference lines (or at the end of the road, with that reported). Splitting the move into any sequence of smaller moves with the same total, or moving back again by the same way, ends at the same place.",
 ["inputs","histories"],"all road networks with arbitrary link orientation, lane sections and junctions x all move sequences",
 "Tests move along a few shipped networks by a few distances; link orientation x contact point x lane-section combinations are unsampled.",
 [RM,RL],
 [("stepping along s and crossing roads","RoadManager.cpp Position::MoveAlongS, MoveToConnectingRoad"),("junction connection selection","RoadManager.cpp Junction::GetRoadAtOtherEndOfConnectingRoad, GetJunctionConfigurator"),("lane links","RoadManager.cpp Lane::GetLink, Road::GetConnectedLaneIdAtS")],
 observe=["RM_PositionMoveForward return value and RM_GetPositionData","default-controlled vehicles in SE_StepDT"])

p("C06","Relative road positions are the shortest road distance and antisymmetric",
 "The longitudinal distance reported between two positions or objects is the length of a shortest connection along the road network between them, signed by whether the other one is ahead or behind with respect to the observer's direction, and lateral and lane differences agree with the two positions' own coordinates. No connection within range is reported as such rather than with a number. Reversing observer and target on a common road negates the longitudinal distance.",
 ["inputs"],"all road networks x all pairs of positions/objects",
 "Tests sample single pairs on shipped maps.",
 [RM,RL,SL,SE+"Entities.cpp"],
 [("graph search","RoadManager.cpp RoadPath::Calculate, Position::Delta"),("distance by coordinate system","Entities.cpp Object::Distance, FreeSpaceDistance")],
 observe=["RM_SubtractAFromB","SE_GetDistanceToObject"])

p("C07","Storyboard elements follow the declared life cycle",
 "For every storyboard, each story, act, maneuver group, maneuver, event and action only makes the state transitions that OpenSCENARIO allows (init, standby, running, complete; back to standby only for a repeatable group or event), runs only while its parent runs, never runs more often than its declared execution count, and is complete once all its children are complete or its stop trigger fired. An event starting with priority override ends the running sibling events, one with priority skip does not start while a sibling runs, and a parallel one leaves them running. Of two actions that control the same domain of the same object only the one started last runs. When the storyboard's stop trigger fires nothing keeps running.",
 ["programs","histories"],"all storyboards (structure, priorities, execution counts, triggers, action durations)",
 "Tests run a few dozen fixed storyboards and look at selected end states; the state history across arbitrary structures is not checked.",
 [SE+"StoryboardElement.cpp",SE+"Storyboard.cpp",SE+"Action.cpp"],
 [("state machine","StoryboardElement.cpp Start/Stop/End/Step/EvalTriggers"),("event priority","Storyboard.cpp Event::Start, Maneuver"),("execution counters","StoryboardElement.cpp num_executions_")],
 observe=["SE_RegisterStoryBoardElementStateChangeCallback event log"])

p("C08","Triggers fire exactly when their condition logic says so",
 "For every trigger made of groups of conditions, the element starts (or stops) at the first evaluated step where all conditions of at least one group hold, where a condition's comparison (with its rule, edge and delay) is judged on the simulated state that the API reports at that step. It never starts earlier, and never later than that step. Each kind of state condition - time, speed, acceleration, distance, headway, time-to-collision, travelled distance, stand-still, collision, reach-position, parameter, variable and storyboard-state - evaluates to the value its definition gives for the reported state.",
 ["inputs","histories"],"all triggers (groups, rules, edges, delays, condition kinds) x all state histories",
 "Tests sample one or two trigger configurations each.",
 [OT+"OSCCondition.cpp",OT+"OSCCondition.hpp"],
 [("edge, delay and grouping","OSCCondition.cpp OSCCondition::Evaluate, CheckEdge, OSCConditionGroup, Trigger::Evaluate"),("individual conditions","OSCCondition.cpp TrigBy*::CheckCondition")],
 observe=["condition callback and storyboard callback timestamps against the state trace"])

p("C09","Speed actions reach their target along the declared transition",
 "For every speed action - absolute or relative target, any transition shape (linear, cubic, sinusoidal, step) and dimension (time, rate, distance), any initial speed and time step - the object's speed starts at its current value, follows the declared shape, never overshoots the range between start and target, has the declared duration, rate or distance, and is exactly the target when the action reports complete, keeping it afterwards. Declared vehicle speed and acceleration limits are never exceeded by default-controlled speed changes.",
 ["inputs"],"all action parameters x initial speeds x time steps",
 "Tests pin a few parameter combinations at one time step.",
 [OT+"OSCPrivateAction.cpp",OT+"OSCPrivateAction.hpp"],
 [("transition functions","OSCPrivateAction.cpp OSCPrivateAction::TransitionDynamics::Evaluate"),("speed action","OSCPrivateAction.cpp LongSpeedAction::Start/Step"),("speed profile","OSCPrivateAction.cpp LongSpeedProfileAction")],
 observe=["per-step SE_ScenarioObjectState.speed and storyboard callbacks"])

p("C10","Lateral actions end in the declared lane and offset along the declared shape",
 "For every lane-change or lane-offset action - absolute or relative target, any shape and dimension, any initial lane, offset, driving direction and time step - the lateral position moves monotonically (for non-overshooting shapes) from its current value to the target lane centre plus target offset, has the declared duration, distance or rate, and when the action reports complete the object is in the target lane at the target offset and stays there while it drives on. The distance an object covers per step stays its speed times the step.",
 ["inputs"],"all action parameters x road layouts x initial states x time steps",
 "Tests pin a few configurations.",
 [OT+"OSCPrivateAction.cpp",RM],
 [("lane change","OSCPrivateAction.cpp LatLaneChangeAction::Start/Step"),("lane offset","OSCPrivateAction.cpp LatLaneOffsetAction::Start/Step"),("transition functions","OSCPrivateAction.cpp TransitionDynamics")],
 observe=["per-step laneId, laneOffset, t and storyboard callbacks"])

p("C11","Reported motion is kinematically consistent",
 "At every step of every simulation the reported simulation time advances by exactly the requested step, and each object's reported position change, velocity vector, acceleration, heading rate, odometer and wheel rotation are consistent with each other and with its reported speed: a default-controlled object travels speed times step length along its lane, and no object jumps unless it was teleported. All reported values are finite and angles are within their documented range.",
 ["inputs","histories"],"all scenarios x step-size sequences",
 "Tests look at selected values at selected times.",
 [SE+"ScenarioEngine.cpp",SE+"Entities.cpp",PB+"playerbase.cpp",SL],
 [("time keeping and default controller","ScenarioEngine.cpp step, defaultController"),("derived kinematics","ScenarioEngine.cpp prepareGroundTruth; Entities.cpp")],
 observe=["SE_GetObjectState, SE_GetObjectVelocityGlobalXYZ, SE_GetObjectAccelerationGlobalXYZ, SE_GetObjectOdometer, SE_GetSimulationTime"])

p("C12","Trajectory following stays on the declared path and schedule",
 "An object following a trajectory (polyline, clothoid or NURBS) is at every step on that curve; with a time reference it is at each vertex at the vertex's scaled and offset time, without one it advances by its speed, and it never moves against the direction of travel. When the trajectory ends, or at its end time, the action completes with the object at the final point.",
 ["inputs"],"all trajectories x timing modes x speeds x time steps",
 "Tests sample a few fixed trajectories.",
 [RM,OT+"OSCPrivateAction.cpp"],
 [("curve evaluation","RoadManager.cpp PolyLineBase::Evaluate, ClothoidShape, NurbsShape"),("following","OSCPrivateAction.cpp FollowTrajectoryAction::Step; RoadManager.cpp Position::MoveTrajectoryDS, SetTrajectoryPosByTime")],
 observe=["per-step object pose against an independently evaluated curve"])

p("C13","Same inputs give the same run, whatever ran before",
 "Running a scenario twice with the same seed, parameters and step sequence yields bit-identical state histories, storyboard histories and recordings: in a fresh process, in the same process after any other scenarios were run, aborted or failed to load and were closed, and regardless of whether recording, logging or read-only queries are active. Nothing a previous run set (objects, callbacks, non-persistent options, parameters, road network) is visible in the next one.",
 ["histories","configurations"],"all scenarios x all histories of earlier runs in the process x recording/logging configurations",
 "Each test looks at its own end result; comparisons of whole histories across run orders are not made.",
 [SL,PB+"playerbase.cpp",SE+"ScenarioEngine.cpp",CM+"CommonMini.cpp",RM],
 [("reset between runs","esminiLib.cpp resetScenario/SE_Close; destructors"),("single seeded random generator","CommonMini.cpp SE_Rand"),("static counters","StoryboardElement state_changes_, Object id counters, global road network")],
 observe=["complete state and event traces compared across runs"])

p("C14","A recording reproduces the run it was made from",
 "For every scenario run with recording on, the recorded file, when converted or read back, contains for every simulated time step exactly the objects that existed, with the pose, speed, road coordinates and attributes the library reported at that time, each time step once and in order. Objects added or deleted during the run appear and disappear at the right time, and a recording cut off at any byte still yields a correct prefix or a clean error.",
 ["inputs","crash_points"],"all runs (object sets, motion, step sizes) x all truncation points of the file",
 "Tests compare a few values of a few recordings; only changed values are stored, so a missed change shows only in particular histories.",
 [SE+"PacketHandler.cpp",SE+"PacketHandler.hpp","EnvironmentSimulator/Applications/replayer/Replay.cpp","EnvironmentSimulator/Applications/replayer/dat2csv.cpp",PB+"playerbase.cpp"],
 [("change-only packet writing","PacketHandler.cpp DatWriter"),("reader and state reconstruction","PacketHandler.cpp DatReader, Replay.cpp BuildDataFromPackets")],
 observe=["dat2csv output against the live API trace"])

p("C15","Damaged input is refused or tolerated, never fatal",
 "Any scenario, road, catalog or parameter-distribution file that is truncated, is not well-formed, or misses, repeats or mistypes elements and attributes is either loaded with diagnostics or refused with an error return; it never crashes the process, corrupts memory or hangs. After a refused file the library can be initialised again with a valid one and behaves normally.",
 ["inputs","fault_sequences"],"all byte strings and all structural mutations of valid files",
 "Only a handful of fixed broken files are tested.",
 [SE+"ScenarioReader.cpp",RM,SE+"Catalogs.cpp",OT+"OSCParameterDistribution.cpp",SE+"PacketHandler.cpp","EnvironmentSimulator/Applications/replayer/Replay.cpp"],
 [("parser checks and exceptions","ScenarioReader.cpp, RoadManager.cpp OpenDrive::ParseOpenDriveXML, esminiLib.cpp InitScenario try/catch"),("recording reader checks","PacketHandler.cpp, Replay.cpp")],
 observe=["exit status, sanitizer reports, API return values"])

p("C16","Parameters, expressions and distributions evaluate to their defined values",
 "Every parameter or variable reference and every ${...} expression in a scenario evaluates to the mathematical value its definition gives, with values set through the API, the declaration callback, a distribution file or an action taking effect from then on and in the declared type. A deterministic parameter distribution yields each combination of the declared values exactly once over its permutations, and the reported number of permutations is their product.",
 ["inputs","histories"],"all expressions, declarations, get/set histories and distributions",
 "Tests evaluate a few dozen fixed expressions and one or two distributions.",
 [SE+"Parameters.cpp",SE+"simple_expr.c","externals/expr/expr.h",OT+"OSCParameterDistribution.cpp",SL],
 [("parameter scopes","Parameters.cpp getParameter, ReadAttribute, RestoreParameterDeclarations"),("expression evaluation","simple_expr.c eval_expr"),("permutation indexing","OSCParameterDistribution.cpp")],
 observe=["SE_GetParameter*/SE_GetVariable* and object states driven by expressions"])

p("C17","Objects and externally reported states are kept exactly",
 "The set of objects the library reports is always exactly those declared, added and not deleted, each with one stable unique id and name that find each other, across any sequence of add, delete, report, step and query calls. A pose, road position, speed, velocity, acceleration or wheel state reported for an externally controlled object is what is read back, with omitted components resolved to the road surface as the position mode says, and leaves all other objects unaffected. A callback registered for an object is called once per step, with that object's state and its own data.",
 ["histories","inputs"],"all sequences of API calls on the object registry x all reported states and position modes",
 "Tests use a few fixed sequences.",
 [SL,SE+"Entities.cpp",RM,SE+"ScenarioEngine.cpp"],
 [("object list","Entities.cpp addObject/removeObject/getObjectById"),("reporting","esminiLib.cpp SE_ReportObject*"),("position modes","RoadManager.cpp Position::SetInertiaPosMode, EvaluateRoadZHPR")],
 observe=["SE_GetNumberOfObjects, SE_GetId, SE_GetIdByName, SE_GetObjectState"])

p("C18","Collisions and sensor detections match the geometry",
 "With collision detection on, two objects are reported as colliding at a step exactly when their oriented bounding boxes overlap in the reported poses, and always mutually. An ideal sensor lists exactly the other objects whose reference point lies inside its range and field of view at that step, at most the configured number, and time-to-collision and free-space distances are those of the bounding boxes.",
 ["inputs","histories"],"all object sizes, poses and motions x sensor mounts",
 "Tests check single configurations.",
 [SE+"ScenarioEngine.cpp",SE+"Entities.cpp",SE+"IdealSensor.cpp",SL],
 [("overlap test","Entities.cpp Object::Collision (separating axis)"),("collision bookkeeping","ScenarioEngine.cpp DetectCollisions"),("sensor frustum","IdealSensor.cpp ObjectSensor::Update")],
 observe=["SE_GetObjectNumberOfCollisions/SE_GetObjectCollision, SE_FetchSensorObjectList"])

p("C19","Routes lead through their waypoints by connected roads",
 "A route given by waypoints is resolved to a sequence of connected roads that passes the waypoints in order, with a length equal to the sum of the traversed parts and no longer than any other connection between consecutive waypoints; where no connection exists the object is not reported as being on the route. An object following the route by the default controller visits its roads in that order without moving backwards and is reported as being on the route up to its last road, and an object placed at a distance along a route is at that distance.",
 ["inputs"],"all road networks x all waypoint lists",
 "Tests sample a few routes on shipped maps.",
 [RM,"EnvironmentSimulator/Modules/RoadManager/LaneIndependentRouter.cpp",SL],
 [("route building","RoadManager.cpp Route::AddWaypoint"),("route following","RoadManager.cpp Position::MoveRouteDS, Route::MovePathDS"),("lane independent router","LaneIndependentRouter.cpp CalculatePath")],
 observe=["SE_GetNumberOfRoutePoints, SE_GetRoutePoint, SE_GetRouteTotalLength, SE_GetObjectRouteStatus, object road sequence"])

p("C20","Actions relative to other objects reach the relation they declare",
 "Synchronize actions bring the master and the controlled object to their destinations at the same time within the declared tolerance and final speed; longitudinal and lateral distance actions reach and hold the declared distance or time gap without violating their dynamic limits; relative speed targets follow the referenced object's speed. These hold for every initial configuration in which the relation is attainable.",
 ["inputs"],"all attainable initial configurations and action parameters",
 "Tests pin a few configurations.",
 [OT+"OSCPrivateAction.cpp"],
 [("synchronize","OSCPrivateAction.cpp SynchronizeAction::Step"),("distance keeping","OSCPrivateAction.cpp LongDistanceAction::Step, LatDistanceAction")],
 observe=["state traces of both objects"])

open('/verif/properties.jsonl','w').write("\n".join(json.dumps(x) for x in P)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
