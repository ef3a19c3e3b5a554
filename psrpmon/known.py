"""The known types of the protocol: enumerations with their members, classes with their type names and properties.

Written down from the protocol's documentation ([MS-PSRP] 2.2) and from what PowerShell sends, not read from the code
under test.  CLASSES maps a class to (type names, adapted properties, extended properties); a property is "Name:kind"
or, when it is mandatory, "Name!:kind".
"""

ENUMS = {
    'ApartmentState': ('System.Threading.ApartmentState', "STA=0 MTA=1 Unknown=2"),
    'BufferCellType': ('System.Management.Automation.Host.BufferCellType', "Complete=0 Leading=1 Trailing=2"),
    'CommandOrigin': ('System.Management.Automation.CommandOrigin', "Runspace=0 Internal=1"),
    'CommandTypes': (
        "System.Management.Automation.CommandTypes",
        "Alias=1 Function=2 Filter=4 Cmdlet=8 ExternalScript=16 Application=32 Script=64 Configuration=256 "
        "All=383",
    ),
    'ConsoleColor': (
        "System.ConsoleColor",
        "Black=0 DarkBlue=1 DarkGreen=2 DarkCyan=3 DarkRed=4 DarkMagenta=5 DarkYellow=6 Gray=7 DarkGray=8 "
        "Blue=9 Green=10 Cyan=11 Red=12 Magenta=13 Yellow=14 White=15",
    ),
    'ControlKeyStates': (
        "System.Management.Automation.Host.ControlKeyStates",
        "none=0 RightAltPressed=1 LeftAltPressed=2 RightCtrlPressed=4 LeftCtrlPressed=8 ShiftPressed=16 "
        "NumLockOn=32 ScrollLockOn=64 CapsLockOn=128 EnhancedKey=256",
    ),
    'ErrorCategory': (
        "System.Management.Automation.ErrorCategory",
        "NotSpecified=0 OpenError=1 CloseError=2 DeviceError=3 DeadlockDetected=4 InvalidArgument=5 "
        "InvalidData=6 InvalidOperation=7 InvalidResult=8 InvalidType=9 MetadataError=10 NotImplemented=11 "
        "NotInstalled=12 ObjectNotFound=13 OperationStopped=14 OperationTimeout=15 SyntaxError=16 "
        "ParserError=17 PermissionDenied=18 ResourceBusy=19 ResourceExists=20 ResourceUnavailable=21 "
        "ReadError=22 WriteError=23 FromStdErr=24 SecurityError=25 ProtocolError=26 ConnectionError=27 "
        "AuthenticationError=28 LimitsExceeded=29 QuotaExceeded=30 NotEnabled=31",
    ),
    'HostMethodIdentifier': (
        "System.Management.Automation.Remoting.RemoteHostMethodId",
        "GetName=1 GetVersion=2 GetInstanceId=3 GetCurrentCulture=4 GetCurrentUICulture=5 SetShouldExit=6 "
        "EnterNestedPrompt=7 ExitNestedPrompt=8 NotifyBeginApplication=9 NotifyEndApplication=10 ReadLine=11 "
        "ReadLineAsSecureString=12 Write1=13 Write2=14 WriteLine1=15 WriteLine2=16 WriteLine3=17 "
        "WriteErrorLine=18 WriteDebugLine=19 WriteProgress=20 WriteVerboseLine=21 WriteWarningLine=22 "
        "Prompt=23 PromptForCredential1=24 PromptForCredential2=25 PromptForChoice=26 GetForegroundColor=27 "
        "SetForegroundColor=28 GetBackgroundColor=29 SetBackgroundColor=30 GetCursorPosition=31 "
        "SetCursorPosition=32 GetWindowPosition=33 SetWindowPosition=34 GetCursorSize=35 SetCursorSize=36 "
        "GetBufferSize=37 SetBufferSize=38 GetWindowSize=39 SetWindowSize=40 GetWindowTitle=41 "
        "SetWindowTitle=42 GetMaxWindowSize=43 GetMaxPhysicalWindowSize=44 GetKeyAvailable=45 ReadKey=46 "
        "FlushInputBuffer=47 SetBufferContents1=48 SetBufferContents2=49 GetBufferContents=50 "
        "ScrollBufferContents=51 PushRunspace=52 PopRunspace=53 GetIsRunspacePushed=54 GetRunspace=55 "
        "PromptForChoiceMultipleSelection=56",
    ),
    'PSCredentialTypes': ('System.Management.Automation.PSCredentialTypes', "Generic=1 Domain=2 Default=3"),
    'PSCredentialUIOptions': (
        "System.Management.Automation.PSCredentialUIOptions",
        "none=0 ValidateUserNameSyntax=1 AlwaysPrompt=2 ReadOnlyUsername=3 Default=1",
    ),
    'PSInvocationState': (
        "System.Management.Automation.PSInvocationState",
        "NotStarted=0 Running=1 Stopping=2 Stopped=3 Completed=4 Failed=5 Disconnected=6",
    ),
    'PSThreadOptions': (
        "System.Management.Automation.Runspaces.PSThreadOptions",
        "Default=0 UseNewThread=1 ReuseThread=2 UseCurrentThread=3",
    ),
    'PipelineResultTypes': (
        "System.Management.Automation.Runspaces.PipelineResultTypes",
        "none=0 Output=1 Error=2 Warning=3 Verbose=4 Debug=5 Information=6 All=7 Null=8",
    ),
    'ProgressRecordType': ('System.Management.Automation.ProgressRecordType', "Processing=0 Completed=1"),
    'ReadKeyOptions': (
        "System.Management.Automation.Host.ReadKeyOptions",
        "AllowCtrlC=1 NoEcho=2 IncludeKeyDown=4 IncludeKeyUp=8",
    ),
    'RemoteStreamOptions': (
        "System.Management.Automation.RemoteStreamOptions",
        "none=0 AddInvocationInfoToErrorRecord=1 AddInvocationInfoToWarningRecord=2 "
        "AddInvocationInfoToDebugRecord=4 AddInvocationInfoToVerboseRecord=8 AddInvocationInfo=15",
    ),
    'RunspacePoolState': (
        "System.Management.Automation.Runspaces.RunspacePoolState",
        "BeforeOpen=0 Opening=1 Opened=2 Closed=3 Closing=4 Broken=5 Disconnecting=6 Disconnected=7 "
        "Connecting=8",
    ),
    'SessionStateEntryVisibility': ('System.Management.Automation.SessionStateEntryVisibility', "Public=0 Private=1"),
}
CLASSES = {
    'ApplicationPrivateData': ("", "", "ApplicationPrivateData!:P"),
    'BufferCell': (
        "System.Management.Automation.Host.BufferCell System.ValueType System.Object",
        "Character:c ForegroundColor:ConsoleColor BackgroundColor:ConsoleColor BufferCellType:BufferCellType",
        "",
    ),
    'ChoiceDescription': (
        "System.Management.Automation.Host.ChoiceDescription System.Object",
        "Label!:s HelpMessage:s",
        "",
    ),
    'CommandMetadataCount': (
        "Selected.Microsoft.PowerShell.Commands.GenericMeasureInfo "
        "System.Management.Automation.PSCustomObject System.Object",
        "",
        "Count!:i",
    ),
    'ConnectRunspacePool': ("", "", "MinRunspaces:i MaxRunspaces:i"),
    'Coordinates': ("System.Management.Automation.Host.Coordinates System.ValueType System.Object", "X!:i Y!:i", ""),
    'CreatePipeline': (
        "",
        "",
        "NoInput!:b ApartmentState!:ApartmentState RemoteStreamOptions!:RemoteStreamOptions AddToHistory!:b "
        "HostInfo!:HostInfo PowerShell!:* IsNested!:b",
    ),
    'DebugRecord': (
        "System.Management.Automation.DebugRecord System.Management.Automation.InformationalRecord "
        "System.Object",
        "Message:s InvocationInfo:InvocationInfo PipelineIterationInfo:L",
        "",
    ),
    'DebugRecordMsg': (
        "System.Management.Automation.DebugRecord System.Management.Automation.InformationalRecord "
        "System.Object",
        "Message:s InvocationInfo:InvocationInfo PipelineIterationInfo:L",
        "",
    ),
    'EncryptedSessionKey': ("", "", "EncryptedSessionKey!:s"),
    'EndOfPipelineInput': ("", "", ""),
    'ErrorCategoryInfo': (
        "System.Management.Automation.ErrorCategoryInfo System.Object",
        "Category:ErrorCategory Activity:s Reason:s TargetName:s TargetType:s",
        "",
    ),
    'ErrorDetails': ("System.Management.Automation.ErrorDetails System.Object", "Message:s RecommendedAction:s", ""),
    'ErrorRecord': (
        "System.Management.Automation.ErrorRecord System.Object",
        "Exception!:* CategoryInfo!:ErrorCategoryInfo TargetObject:* FullyQualifiedErrorId:s "
        "InvocationInfo:InvocationInfo ErrorDetails:ErrorDetails PipelineIterationInfo:L ScriptStackTrace:s",
        "",
    ),
    'ErrorRecordMsg': (
        "System.Management.Automation.ErrorRecord System.Object",
        "Exception!:* CategoryInfo!:ErrorCategoryInfo TargetObject:* FullyQualifiedErrorId:s "
        "InvocationInfo:InvocationInfo ErrorDetails:ErrorDetails PipelineIterationInfo:L ScriptStackTrace:s",
        "",
    ),
    'FieldDescription': (
        "System.Management.Automation.Host.FieldDescription System.Object",
        "Name!:s ParameterTypeName:s ParameterTypeFullName:s ParameterAssemblyFullName:s Label:s "
        "HelpMessage:s IsMandatory:b DefaultValue:* Attributes:L",
        "",
    ),
    'GetAvailableRunspaces': ("", "", "ci!:l"),
    'GetCommandMetadata': ("", "", "Name:L CommandType:CommandTypes Namespace:L ArgumentList:L"),
    'HostDefaultData': (
        "",
        "",
        "ForegroundColor!:ConsoleColor BackgroundColor!:ConsoleColor CursorPosition!:Coordinates "
        "WindowPosition!:Coordinates CursorSize!:i BufferSize!:Size WindowSize!:Size MaxWindowSize!:Size "
        "MaxPhysicalWindowSize!:Size WindowTitle!:s",
    ),
    'HostInfo': (
        "",
        "",
        "IsHostNull:b IsHostUINull:b IsHostRawUINull:b UseRunspaceHost:b HostDefaultData:HostDefaultData",
    ),
    'InformationRecord': (
        "System.Management.Automation.InformationRecord System.Object",
        "MessageData:* Source:s TimeGenerated:t Tags:L User:s Computer:s ProcessId:u NativeThreadId:u "
        "ManagedThreadId:u",
        "",
    ),
    'InformationRecordMsg': (
        "",
        "",
        "MessageData:* Source:s TimeGenerated:t Tags:L User:s Computer:s ProcessId:u NativeThreadId:u "
        "ManagedThreadId:u",
    ),
    'InformationalRecord': (
        "System.Management.Automation.InformationalRecord System.Object",
        "Message:s InvocationInfo:InvocationInfo PipelineIterationInfo:L",
        "",
    ),
    'InitRunspacePool': (
        "",
        "",
        "MinRunspaces!:i MaxRunspaces!:i PSThreadOptions!:PSThreadOptions ApartmentState!:ApartmentState "
        "HostInfo!:HostInfo ApplicationArguments!:P",
    ),
    'InvocationInfo': (
        "System.Management.Automation.InvocationInfo System.Object",
        "BoundParameters:D CommandOrigin:CommandOrigin DisplayScriptPosition:ScriptExtent ExpectingInput:b "
        "HistoryId:l InvocationName:s Line:s MyCommand:* OffsetInLine:i PipelineLength:i PipelinePosition:i "
        "PositionMessage:s PSCommandPath:s PSScriptRoot:s ScriptLineNumber:i ScriptName:s UnboundArguments:L",
        "",
    ),
    'KeyInfo': (
        "System.Management.Automation.Host.KeyInfo System.Object",
        "VirtualKeyCode:i Character:c ControlKeyState:ControlKeyStates KeyDown:b",
        "",
    ),
    'NETException': (
        "System.Exception System.Object",
        "Message!:s Data:D HelpLink:s HResult:i InnerException:* Source:s StackTrace:s TargetSite:s",
        "",
    ),
    'PSByte': ("System.Byte System.ValueType System.Object", "", ""),
    'PSByteArray': ("System.Byte[] System.Array System.Object", "", ""),
    'PSChar': ("System.Char System.ValueType System.Object", "", ""),
    'PSCredential': (
        "System.Management.Automation.PSCredential System.Object",
        "UserName!:s Password!:PSSecureString",
        "",
    ),
    'PSCustomObject': ("System.Management.Automation.PSCustomObject System.Object", "", ""),
    'PSDateTime': ("System.DateTime System.ValueType System.Object", "", ""),
    'PSDecimal': ("System.Decimal System.ValueType System.Object", "", ""),
    'PSDict': ("System.Collections.Hashtable System.Object", "", ""),
    'PSDouble': ("System.Double System.ValueType System.Object", "", ""),
    'PSDuration': ("System.TimeSpan System.ValueType System.Object", "", ""),
    'PSGuid': ("System.Guid System.ValueType System.Object", "", ""),
    'PSIEnumerable': ("System.Collections.IEnumerable System.Object", "", ""),
    'PSInt': ("System.Int32 System.ValueType System.Object", "", ""),
    'PSInt16': ("System.Int16 System.ValueType System.Object", "", ""),
    'PSInt64': ("System.Int64 System.ValueType System.Object", "", ""),
    'PSList': ("System.Collections.ArrayList System.Object", "", ""),
    'PSPrimitiveDictionary': (
        "System.Management.Automation.PSPrimitiveDictionary System.Collections.Hashtable System.Object",
        "",
        "",
    ),
    'PSQueue': ("System.Collections.Queue System.Object", "", ""),
    'PSSByte': ("System.SByte System.ValueType System.Object", "", ""),
    'PSScriptBlock': ("System.Management.Automation.ScriptBlock System.Object", "", ""),
    'PSSecureString': ("System.Security.SecureString System.Object", "", ""),
    'PSSingle': ("System.Single System.ValueType System.Object", "", ""),
    'PSStack': ("System.Collections.Stack System.Object", "", ""),
    'PSString': ("System.String System.Object", "", ""),
    'PSUInt': ("System.UInt32 System.ValueType System.Object", "", ""),
    'PSUInt16': ("System.UInt16 System.ValueType System.Object", "", ""),
    'PSUInt64': ("System.UInt64 System.ValueType System.Object", "", ""),
    'PSUri': ("System.Uri System.Object", "", ""),
    'PSVersion': ("System.Version System.Object", "", ""),
    'PSXml': ("System.Xml.XmlDocument System.Xml.XmlNode System.Object", "", ""),
    'PipelineHostCall': ("", "", "ci!:l mi!:HostMethodIdentifier mp!:L"),
    'PipelineHostResponse': ("", "", "ci!:l mi!:HostMethodIdentifier mr:* me:ErrorRecord"),
    'PipelineInput': ("", "", ""),
    'PipelineOutput': ("", "", ""),
    'PipelineState': ("", "", "PipelineState!:i ExceptionAsErrorRecord:ErrorRecord"),
    'ProgressRecord': (
        "System.Management.Automation.ProgressRecord System.Object",
        "ActivityId!:i Activity!:s StatusDescription!:s CurrentOperation:s ParentActivityId:i "
        "PercentComplete:i RecordType:ProgressRecordType SecondsRemaining:i",
        "",
    ),
    'ProgressRecordMsg': (
        "",
        "",
        "Activity:s ActivityId:i StatusDescription:s CurrentOperation:s ParentActivityId:i PercentComplete:i "
        "Type:ProgressRecordType SecondsRemaining:i",
    ),
    'PublicKey': ("", "", "PublicKey!:s"),
    'PublicKeyRequest': ("", "", ""),
    'Rectangle': (
        "System.Management.Automation.Host.Rectangle System.ValueType System.Object",
        "Left!:i Top!:i Right!:i Bottom!:i",
        "",
    ),
    'ResetRunspaceState': ("", "", "ci!:l"),
    'RunspaceAvailability': ("", "", "SetMinMaxRunspacesResponse!:* ci!:l"),
    'RunspacePoolHostCall': ("", "", "ci!:l mi!:HostMethodIdentifier mp!:L"),
    'RunspacePoolHostResponse': ("", "", "ci!:l mi!:HostMethodIdentifier mr:* me:ErrorRecord"),
    'RunspacePoolInitData': ("", "", "MinRunspaces!:i MaxRunspaces!:i"),
    'RunspacePoolStateMsg': ("", "", "RunspaceState!:i ExceptionAsErrorRecord:ErrorRecord"),
    'ScriptExtent': (
        "System.Management.Automation.Language.ScriptExtent System.Object",
        "File:() StartScriptPosition:() EndScriptPosition:() StartLineNumber:() StartColumnNumber:() "
        "EndLineNumber:() EndColumnNumber:() StartOffset:() EndOffset:() Text:()",
        "",
    ),
    'ScriptPosition': (
        "System.Management.Automation.Language.ScriptPosition System.Object",
        "File:s LineNumber:i ColumnNumber:i Line:s Offset:()",
        "",
    ),
    'SessionCapability': ("", "", "PSVersion!:v protocolversion!:v SerializationVersion!:v TimeZone:y"),
    'SetMaxRunspaces': ("", "", "MaxRunspaces!:i ci!:l"),
    'SetMinRunspaces': ("", "", "MinRunspaces!:i ci!:l"),
    'Size': ("System.Management.Automation.Host.Size System.ValueType System.Object", "Width!:i Height!:i", ""),
    'UserEvent': (
        "",
        "",
        "EventIdentifier:i SourceIdentifier:s TimeGenerated:t Sender:* SourceArgs!:* MessageData:* "
        "ComputerName:s RunspaceId:g",
    ),
    'VerboseRecord': (
        "System.Management.Automation.VerboseRecord System.Management.Automation.InformationalRecord "
        "System.Object",
        "Message:s InvocationInfo:InvocationInfo PipelineIterationInfo:L",
        "",
    ),
    'VerboseRecordMsg': (
        "System.Management.Automation.VerboseRecord System.Management.Automation.InformationalRecord "
        "System.Object",
        "Message:s InvocationInfo:InvocationInfo PipelineIterationInfo:L",
        "",
    ),
    'WarningRecord': (
        "System.Management.Automation.WarningRecord System.Management.Automation.InformationalRecord "
        "System.Object",
        "Message:s InvocationInfo:InvocationInfo PipelineIterationInfo:L",
        "",
    ),
    'WarningRecordMsg': (
        "System.Management.Automation.WarningRecord System.Management.Automation.InformationalRecord "
        "System.Object",
        "Message:s InvocationInfo:InvocationInfo PipelineIterationInfo:L",
        "",
    ),
}

# kinds of properties: the class of the value, raw values it is made from and the values they become
KINDS = {
    "s": "PSString", "i": "PSInt", "l": "PSInt64", "u": "PSUInt", "c": "PSChar", "b": "bool", "L": "PSList",
    "D": "PSDict", "P": "PSPrimitiveDictionary", "v": "PSVersion", "y": "PSByteArray", "g": "PSGuid", "t": "PSDateTime",
}


def props(text):
    """[(name, mandatory, kind)]"""
    out = []
    for p in text.split():
        n, k = p.split(":")
        out.append((n.rstrip("!"), n.endswith("!"), k))
    return out


def members(text):
    return [(n, int(v)) for n, v in (x.split("=") for x in text.split())]
