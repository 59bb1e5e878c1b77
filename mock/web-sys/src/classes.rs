// generated by tools/genwebsys.py
use js_sys::Object;
use wasm_bindgen::js_class;

js_class!(AddEventListenerOptions: Object);
js_class!(AnimationEvent: Event, Object);
js_class!(AnimationPlaybackEvent: Event, Object);
js_class!(Attr: Node, EventTarget, Object);
js_class!(AudioProcessingEvent: Event, Object);
js_class!(BeforeUnloadEvent: Event, Object);
js_class!(BlobEvent: Event, Object);
js_class!(BluetoothAdvertisingEvent: Event, Object);
js_class!(CdataSection: Text, CharacterData, Node, EventTarget, Object);
js_class!(CharacterData: Node, EventTarget, Object);
js_class!(ClipboardEvent: Event, Object);
js_class!(CloseEvent: Event, Object);
js_class!(CommandEvent: Event, Object);
js_class!(Comment: CharacterData, Node, EventTarget, Object);
js_class!(CompositionEvent: UiEvent, Event, Object);
js_class!(CookieChangeEvent: Event, Object);
js_class!(CssStyleDeclaration: Object);
js_class!(CustomEvent: Event, Object);
js_class!(CustomEventInit: Object);
js_class!(DataTransfer: Object);
js_class!(DeviceLightEvent: Event, Object);
js_class!(DeviceMotionEvent: Event, Object);
js_class!(DeviceOrientationEvent: Event, Object);
js_class!(DeviceProximityEvent: Event, Object);
js_class!(Document: Node, EventTarget, Object);
js_class!(DocumentFragment: Node, EventTarget, Object);
js_class!(DocumentType: Node, EventTarget, Object);
js_class!(DomException: Object);
js_class!(DomRect: DomRectReadOnly, Object);
js_class!(DomRectReadOnly: Object);
js_class!(DomTokenList: Object);
js_class!(DragEvent: MouseEvent, UiEvent, Event, Object);
js_class!(Element: Node, EventTarget, Object);
js_class!(ErrorEvent: Event, Object);
js_class!(Event: Object);
js_class!(EventInit: Object);
js_class!(EventListenerOptions: Object);
js_class!(EventTarget: Object);
js_class!(ExtendableCookieChangeEvent: ExtendableEvent, Event, Object);
js_class!(ExtendableEvent: Event, Object);
js_class!(ExtendableMessageEvent: ExtendableEvent, Event, Object);
js_class!(FetchEvent: ExtendableEvent, Event, Object);
js_class!(FocusEvent: UiEvent, Event, Object);
js_class!(FontFaceSetLoadEvent: Event, Object);
js_class!(GamepadEvent: Event, Object);
js_class!(GestureEvent: UiEvent, Event, Object);
js_class!(GpuUncapturedErrorEvent: Event, Object);
js_class!(HashChangeEvent: Event, Object);
js_class!(HidConnectionEvent: Event, Object);
js_class!(HidInputReportEvent: Event, Object);
js_class!(History: Object);
js_class!(HtmlAnchorElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlAreaElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlAudioElement: HtmlMediaElement, HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlBaseElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlBodyElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlBrElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlButtonElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlCanvasElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlCollection: Object);
js_class!(HtmlDListElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlDataElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlDataListElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlDetailsElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlDialogElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlDirectoryElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlDivElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlDocument: Document, Node, EventTarget, Object);
js_class!(HtmlElement: Element, Node, EventTarget, Object);
js_class!(HtmlEmbedElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlFieldSetElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlFontElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlFormElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlFrameElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlFrameSetElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlHeadElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlHeadingElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlHrElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlHtmlElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlIFrameElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlImageElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlInputElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlLabelElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlLegendElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlLiElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlLinkElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlMapElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlMediaElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlMenuElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlMenuItemElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlMetaElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlMeterElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlModElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlOListElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlObjectElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlOptGroupElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlOptionElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlOptionsCollection: HtmlCollection, Object);
js_class!(HtmlOutputElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlParagraphElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlParamElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlPictureElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlPreElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlProgressElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlQuoteElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlScriptElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlSelectElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlSlotElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlSourceElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlSpanElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlStyleElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlTableCaptionElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlTableCellElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlTableColElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlTableElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlTableRowElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlTableSectionElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlTemplateElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlTextAreaElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlTimeElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlTitleElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlTrackElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlUListElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlUnknownElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlVideoElement: HtmlMediaElement, HtmlElement, Element, Node, EventTarget, Object);
js_class!(IdbVersionChangeEvent: Event, Object);
js_class!(ImageCaptureErrorEvent: Event, Object);
js_class!(InputEvent: UiEvent, Event, Object);
js_class!(IntersectionObserver: Object);
js_class!(IntersectionObserverEntry: Object);
js_class!(IntersectionObserverInit: Object);
js_class!(KeyFrameRequestEvent: Event, Object);
js_class!(KeyboardEvent: UiEvent, Event, Object);
js_class!(Location: Object);
js_class!(MediaEncryptedEvent: Event, Object);
js_class!(MediaKeyMessageEvent: Event, Object);
js_class!(MediaQueryListEvent: Event, Object);
js_class!(MediaRecorderErrorEvent: Event, Object);
js_class!(MediaStreamEvent: Event, Object);
js_class!(MediaStreamTrackEvent: Event, Object);
js_class!(MessageEvent: Event, Object);
js_class!(MidiConnectionEvent: Event, Object);
js_class!(MidiMessageEvent: Event, Object);
js_class!(MouseEvent: UiEvent, Event, Object);
js_class!(MouseScrollEvent: MouseEvent, UiEvent, Event, Object);
js_class!(MutationEvent: Event, Object);
js_class!(NavigateEvent: Event, Object);
js_class!(NavigationCurrentEntryChangeEvent: Event, Object);
js_class!(Node: EventTarget, Object);
js_class!(NodeList: Object);
js_class!(NotificationEvent: ExtendableEvent, Event, Object);
js_class!(OfflineAudioCompletionEvent: Event, Object);
js_class!(PageTransitionEvent: Event, Object);
js_class!(PaymentMethodChangeEvent: PaymentRequestUpdateEvent, Event, Object);
js_class!(PaymentRequestUpdateEvent: Event, Object);
js_class!(Performance: EventTarget, Object);
js_class!(PictureInPictureEvent: Event, Object);
js_class!(PointerEvent: MouseEvent, UiEvent, Event, Object);
js_class!(PopStateEvent: Event, Object);
js_class!(PopupBlockedEvent: Event, Object);
js_class!(PresentationConnectionAvailableEvent: Event, Object);
js_class!(PresentationConnectionCloseEvent: Event, Object);
js_class!(ProcessingInstruction: CharacterData, Node, EventTarget, Object);
js_class!(ProgressEvent: Event, Object);
js_class!(PromiseRejectionEvent: Event, Object);
js_class!(PushEvent: ExtendableEvent, Event, Object);
js_class!(RtcDataChannelEvent: Event, Object);
js_class!(RtcPeerConnectionIceErrorEvent: Event, Object);
js_class!(RtcPeerConnectionIceEvent: Event, Object);
js_class!(RtcTrackEvent: Event, Object);
js_class!(RtcTransformEvent: Event, Object);
js_class!(RtcdtmfToneChangeEvent: Event, Object);
js_class!(SFrameTransformErrorEvent: Event, Object);
js_class!(ScrollAreaEvent: UiEvent, Event, Object);
js_class!(SecurityPolicyViolationEvent: Event, Object);
js_class!(ShadowRoot: DocumentFragment, Node, EventTarget, Object);
js_class!(SpeechRecognitionEvent: Event, Object);
js_class!(SpeechSynthesisErrorEvent: SpeechSynthesisEvent, Event, Object);
js_class!(SpeechSynthesisEvent: Event, Object);
js_class!(Storage: Object);
js_class!(StorageEvent: Event, Object);
js_class!(SubmitEvent: Event, Object);
js_class!(SvgElement: Element, Node, EventTarget, Object);
js_class!(TaskPriorityChangeEvent: Event, Object);
js_class!(TcpServerSocketEvent: Event, Object);
js_class!(TcpSocketErrorEvent: Event, Object);
js_class!(TcpSocketEvent: Event, Object);
js_class!(Text: CharacterData, Node, EventTarget, Object);
js_class!(TimeEvent: Event, Object);
js_class!(ToggleEvent: Event, Object);
js_class!(Touch: Object);
js_class!(TouchEvent: UiEvent, Event, Object);
js_class!(TouchList: Object);
js_class!(TrackEvent: Event, Object);
js_class!(TransitionEvent: Event, Object);
js_class!(UiEvent: Event, Object);
js_class!(UsbConnectionEvent: Event, Object);
js_class!(UserProximityEvent: Event, Object);
js_class!(ValueEvent: Event, Object);
js_class!(WebGlContextEvent: Event, Object);
js_class!(WheelEvent: MouseEvent, UiEvent, Event, Object);
js_class!(Window: EventTarget, Object);
js_class!(XrInputSourceEvent: Event, Object);
js_class!(XrInputSourcesChangeEvent: Event, Object);
js_class!(XrReferenceSpaceEvent: Event, Object);
js_class!(XrSessionEvent: Event, Object);

/// class names of an instance, most derived first
pub(crate) fn chain(class: &str) -> &'static [&'static str] {
    match class {
        "AddEventListenerOptions" => &["AddEventListenerOptions", "Object"],
        "AnimationEvent" => &["AnimationEvent", "Event", "Object"],
        "AnimationPlaybackEvent" => &["AnimationPlaybackEvent", "Event", "Object"],
        "Attr" => &["Attr", "Node", "EventTarget", "Object"],
        "AudioProcessingEvent" => &["AudioProcessingEvent", "Event", "Object"],
        "BeforeUnloadEvent" => &["BeforeUnloadEvent", "Event", "Object"],
        "BlobEvent" => &["BlobEvent", "Event", "Object"],
        "BluetoothAdvertisingEvent" => &["BluetoothAdvertisingEvent", "Event", "Object"],
        "CdataSection" => &["CdataSection", "Text", "CharacterData", "Node", "EventTarget", "Object"],
        "CharacterData" => &["CharacterData", "Node", "EventTarget", "Object"],
        "ClipboardEvent" => &["ClipboardEvent", "Event", "Object"],
        "CloseEvent" => &["CloseEvent", "Event", "Object"],
        "CommandEvent" => &["CommandEvent", "Event", "Object"],
        "Comment" => &["Comment", "CharacterData", "Node", "EventTarget", "Object"],
        "CompositionEvent" => &["CompositionEvent", "UiEvent", "Event", "Object"],
        "CookieChangeEvent" => &["CookieChangeEvent", "Event", "Object"],
        "CssStyleDeclaration" => &["CssStyleDeclaration", "Object"],
        "CustomEvent" => &["CustomEvent", "Event", "Object"],
        "CustomEventInit" => &["CustomEventInit", "Object"],
        "DataTransfer" => &["DataTransfer", "Object"],
        "DeviceLightEvent" => &["DeviceLightEvent", "Event", "Object"],
        "DeviceMotionEvent" => &["DeviceMotionEvent", "Event", "Object"],
        "DeviceOrientationEvent" => &["DeviceOrientationEvent", "Event", "Object"],
        "DeviceProximityEvent" => &["DeviceProximityEvent", "Event", "Object"],
        "Document" => &["Document", "Node", "EventTarget", "Object"],
        "DocumentFragment" => &["DocumentFragment", "Node", "EventTarget", "Object"],
        "DocumentType" => &["DocumentType", "Node", "EventTarget", "Object"],
        "DomException" => &["DomException", "Object"],
        "DomRect" => &["DomRect", "DomRectReadOnly", "Object"],
        "DomRectReadOnly" => &["DomRectReadOnly", "Object"],
        "DomTokenList" => &["DomTokenList", "Object"],
        "DragEvent" => &["DragEvent", "MouseEvent", "UiEvent", "Event", "Object"],
        "Element" => &["Element", "Node", "EventTarget", "Object"],
        "ErrorEvent" => &["ErrorEvent", "Event", "Object"],
        "Event" => &["Event", "Object"],
        "EventInit" => &["EventInit", "Object"],
        "EventListenerOptions" => &["EventListenerOptions", "Object"],
        "EventTarget" => &["EventTarget", "Object"],
        "ExtendableCookieChangeEvent" => &["ExtendableCookieChangeEvent", "ExtendableEvent", "Event", "Object"],
        "ExtendableEvent" => &["ExtendableEvent", "Event", "Object"],
        "ExtendableMessageEvent" => &["ExtendableMessageEvent", "ExtendableEvent", "Event", "Object"],
        "FetchEvent" => &["FetchEvent", "ExtendableEvent", "Event", "Object"],
        "FocusEvent" => &["FocusEvent", "UiEvent", "Event", "Object"],
        "FontFaceSetLoadEvent" => &["FontFaceSetLoadEvent", "Event", "Object"],
        "GamepadEvent" => &["GamepadEvent", "Event", "Object"],
        "GestureEvent" => &["GestureEvent", "UiEvent", "Event", "Object"],
        "GpuUncapturedErrorEvent" => &["GpuUncapturedErrorEvent", "Event", "Object"],
        "HashChangeEvent" => &["HashChangeEvent", "Event", "Object"],
        "HidConnectionEvent" => &["HidConnectionEvent", "Event", "Object"],
        "HidInputReportEvent" => &["HidInputReportEvent", "Event", "Object"],
        "History" => &["History", "Object"],
        "HtmlAnchorElement" => &["HtmlAnchorElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlAreaElement" => &["HtmlAreaElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlAudioElement" => &["HtmlAudioElement", "HtmlMediaElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlBaseElement" => &["HtmlBaseElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlBodyElement" => &["HtmlBodyElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlBrElement" => &["HtmlBrElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlButtonElement" => &["HtmlButtonElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlCanvasElement" => &["HtmlCanvasElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlCollection" => &["HtmlCollection", "Object"],
        "HtmlDListElement" => &["HtmlDListElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlDataElement" => &["HtmlDataElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlDataListElement" => &["HtmlDataListElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlDetailsElement" => &["HtmlDetailsElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlDialogElement" => &["HtmlDialogElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlDirectoryElement" => &["HtmlDirectoryElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlDivElement" => &["HtmlDivElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlDocument" => &["HtmlDocument", "Document", "Node", "EventTarget", "Object"],
        "HtmlElement" => &["HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlEmbedElement" => &["HtmlEmbedElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlFieldSetElement" => &["HtmlFieldSetElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlFontElement" => &["HtmlFontElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlFormElement" => &["HtmlFormElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlFrameElement" => &["HtmlFrameElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlFrameSetElement" => &["HtmlFrameSetElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlHeadElement" => &["HtmlHeadElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlHeadingElement" => &["HtmlHeadingElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlHrElement" => &["HtmlHrElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlHtmlElement" => &["HtmlHtmlElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlIFrameElement" => &["HtmlIFrameElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlImageElement" => &["HtmlImageElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlInputElement" => &["HtmlInputElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlLabelElement" => &["HtmlLabelElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlLegendElement" => &["HtmlLegendElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlLiElement" => &["HtmlLiElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlLinkElement" => &["HtmlLinkElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlMapElement" => &["HtmlMapElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlMediaElement" => &["HtmlMediaElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlMenuElement" => &["HtmlMenuElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlMenuItemElement" => &["HtmlMenuItemElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlMetaElement" => &["HtmlMetaElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlMeterElement" => &["HtmlMeterElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlModElement" => &["HtmlModElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlOListElement" => &["HtmlOListElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlObjectElement" => &["HtmlObjectElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlOptGroupElement" => &["HtmlOptGroupElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlOptionElement" => &["HtmlOptionElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlOptionsCollection" => &["HtmlOptionsCollection", "HtmlCollection", "Object"],
        "HtmlOutputElement" => &["HtmlOutputElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlParagraphElement" => &["HtmlParagraphElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlParamElement" => &["HtmlParamElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlPictureElement" => &["HtmlPictureElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlPreElement" => &["HtmlPreElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlProgressElement" => &["HtmlProgressElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlQuoteElement" => &["HtmlQuoteElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlScriptElement" => &["HtmlScriptElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlSelectElement" => &["HtmlSelectElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlSlotElement" => &["HtmlSlotElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlSourceElement" => &["HtmlSourceElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlSpanElement" => &["HtmlSpanElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlStyleElement" => &["HtmlStyleElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlTableCaptionElement" => &["HtmlTableCaptionElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlTableCellElement" => &["HtmlTableCellElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlTableColElement" => &["HtmlTableColElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlTableElement" => &["HtmlTableElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlTableRowElement" => &["HtmlTableRowElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlTableSectionElement" => &["HtmlTableSectionElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlTemplateElement" => &["HtmlTemplateElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlTextAreaElement" => &["HtmlTextAreaElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlTimeElement" => &["HtmlTimeElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlTitleElement" => &["HtmlTitleElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlTrackElement" => &["HtmlTrackElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlUListElement" => &["HtmlUListElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlUnknownElement" => &["HtmlUnknownElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "HtmlVideoElement" => &["HtmlVideoElement", "HtmlMediaElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
        "IdbVersionChangeEvent" => &["IdbVersionChangeEvent", "Event", "Object"],
        "ImageCaptureErrorEvent" => &["ImageCaptureErrorEvent", "Event", "Object"],
        "InputEvent" => &["InputEvent", "UiEvent", "Event", "Object"],
        "IntersectionObserver" => &["IntersectionObserver", "Object"],
        "IntersectionObserverEntry" => &["IntersectionObserverEntry", "Object"],
        "IntersectionObserverInit" => &["IntersectionObserverInit", "Object"],
        "KeyFrameRequestEvent" => &["KeyFrameRequestEvent", "Event", "Object"],
        "KeyboardEvent" => &["KeyboardEvent", "UiEvent", "Event", "Object"],
        "Location" => &["Location", "Object"],
        "MediaEncryptedEvent" => &["MediaEncryptedEvent", "Event", "Object"],
        "MediaKeyMessageEvent" => &["MediaKeyMessageEvent", "Event", "Object"],
        "MediaQueryListEvent" => &["MediaQueryListEvent", "Event", "Object"],
        "MediaRecorderErrorEvent" => &["MediaRecorderErrorEvent", "Event", "Object"],
        "MediaStreamEvent" => &["MediaStreamEvent", "Event", "Object"],
        "MediaStreamTrackEvent" => &["MediaStreamTrackEvent", "Event", "Object"],
        "MessageEvent" => &["MessageEvent", "Event", "Object"],
        "MidiConnectionEvent" => &["MidiConnectionEvent", "Event", "Object"],
        "MidiMessageEvent" => &["MidiMessageEvent", "Event", "Object"],
        "MouseEvent" => &["MouseEvent", "UiEvent", "Event", "Object"],
        "MouseScrollEvent" => &["MouseScrollEvent", "MouseEvent", "UiEvent", "Event", "Object"],
        "MutationEvent" => &["MutationEvent", "Event", "Object"],
        "NavigateEvent" => &["NavigateEvent", "Event", "Object"],
        "NavigationCurrentEntryChangeEvent" => &["NavigationCurrentEntryChangeEvent", "Event", "Object"],
        "Node" => &["Node", "EventTarget", "Object"],
        "NodeList" => &["NodeList", "Object"],
        "NotificationEvent" => &["NotificationEvent", "ExtendableEvent", "Event", "Object"],
        "OfflineAudioCompletionEvent" => &["OfflineAudioCompletionEvent", "Event", "Object"],
        "PageTransitionEvent" => &["PageTransitionEvent", "Event", "Object"],
        "PaymentMethodChangeEvent" => &["PaymentMethodChangeEvent", "PaymentRequestUpdateEvent", "Event", "Object"],
        "PaymentRequestUpdateEvent" => &["PaymentRequestUpdateEvent", "Event", "Object"],
        "Performance" => &["Performance", "EventTarget", "Object"],
        "PictureInPictureEvent" => &["PictureInPictureEvent", "Event", "Object"],
        "PointerEvent" => &["PointerEvent", "MouseEvent", "UiEvent", "Event", "Object"],
        "PopStateEvent" => &["PopStateEvent", "Event", "Object"],
        "PopupBlockedEvent" => &["PopupBlockedEvent", "Event", "Object"],
        "PresentationConnectionAvailableEvent" => &["PresentationConnectionAvailableEvent", "Event", "Object"],
        "PresentationConnectionCloseEvent" => &["PresentationConnectionCloseEvent", "Event", "Object"],
        "ProcessingInstruction" => &["ProcessingInstruction", "CharacterData", "Node", "EventTarget", "Object"],
        "ProgressEvent" => &["ProgressEvent", "Event", "Object"],
        "PromiseRejectionEvent" => &["PromiseRejectionEvent", "Event", "Object"],
        "PushEvent" => &["PushEvent", "ExtendableEvent", "Event", "Object"],
        "RtcDataChannelEvent" => &["RtcDataChannelEvent", "Event", "Object"],
        "RtcPeerConnectionIceErrorEvent" => &["RtcPeerConnectionIceErrorEvent", "Event", "Object"],
        "RtcPeerConnectionIceEvent" => &["RtcPeerConnectionIceEvent", "Event", "Object"],
        "RtcTrackEvent" => &["RtcTrackEvent", "Event", "Object"],
        "RtcTransformEvent" => &["RtcTransformEvent", "Event", "Object"],
        "RtcdtmfToneChangeEvent" => &["RtcdtmfToneChangeEvent", "Event", "Object"],
        "SFrameTransformErrorEvent" => &["SFrameTransformErrorEvent", "Event", "Object"],
        "ScrollAreaEvent" => &["ScrollAreaEvent", "UiEvent", "Event", "Object"],
        "SecurityPolicyViolationEvent" => &["SecurityPolicyViolationEvent", "Event", "Object"],
        "ShadowRoot" => &["ShadowRoot", "DocumentFragment", "Node", "EventTarget", "Object"],
        "SpeechRecognitionEvent" => &["SpeechRecognitionEvent", "Event", "Object"],
        "SpeechSynthesisErrorEvent" => &["SpeechSynthesisErrorEvent", "SpeechSynthesisEvent", "Event", "Object"],
        "SpeechSynthesisEvent" => &["SpeechSynthesisEvent", "Event", "Object"],
        "Storage" => &["Storage", "Object"],
        "StorageEvent" => &["StorageEvent", "Event", "Object"],
        "SubmitEvent" => &["SubmitEvent", "Event", "Object"],
        "SvgElement" => &["SvgElement", "Element", "Node", "EventTarget", "Object"],
        "TaskPriorityChangeEvent" => &["TaskPriorityChangeEvent", "Event", "Object"],
        "TcpServerSocketEvent" => &["TcpServerSocketEvent", "Event", "Object"],
        "TcpSocketErrorEvent" => &["TcpSocketErrorEvent", "Event", "Object"],
        "TcpSocketEvent" => &["TcpSocketEvent", "Event", "Object"],
        "Text" => &["Text", "CharacterData", "Node", "EventTarget", "Object"],
        "TimeEvent" => &["TimeEvent", "Event", "Object"],
        "ToggleEvent" => &["ToggleEvent", "Event", "Object"],
        "Touch" => &["Touch", "Object"],
        "TouchEvent" => &["TouchEvent", "UiEvent", "Event", "Object"],
        "TouchList" => &["TouchList", "Object"],
        "TrackEvent" => &["TrackEvent", "Event", "Object"],
        "TransitionEvent" => &["TransitionEvent", "Event", "Object"],
        "UiEvent" => &["UiEvent", "Event", "Object"],
        "UsbConnectionEvent" => &["UsbConnectionEvent", "Event", "Object"],
        "UserProximityEvent" => &["UserProximityEvent", "Event", "Object"],
        "ValueEvent" => &["ValueEvent", "Event", "Object"],
        "WebGlContextEvent" => &["WebGlContextEvent", "Event", "Object"],
        "WheelEvent" => &["WheelEvent", "MouseEvent", "UiEvent", "Event", "Object"],
        "Window" => &["Window", "EventTarget", "Object"],
        "XrInputSourceEvent" => &["XrInputSourceEvent", "Event", "Object"],
        "XrInputSourcesChangeEvent" => &["XrInputSourcesChangeEvent", "Event", "Object"],
        "XrReferenceSpaceEvent" => &["XrReferenceSpaceEvent", "Event", "Object"],
        "XrSessionEvent" => &["XrSessionEvent", "Event", "Object"],
        _ => &["Object"],
    }
}
